"""The harnesses of each property: what they cover, options, tier.

tier "thorough" harnesses run only with VERIF_TIER=thorough; "replaces" names the
quick harness a deeper one stands in for.
"""


def H(name, about, **kw):
    return {"name": name, "about": about, **kw}


PROPERTIES = {
    "C01": {
        "assumptions": ["straight links, at most two vehicles; other surroundings enter only through the acceleration, which is bounded by the same clamp"],
        "harnesses": [
            H("h_c01_follow", "one step; two vehicles in either order on one link, arbitrary attributes, positions, speeds up to 40 m/s, dt up to 2 s"),
            H("h_c01_cross", "one step up to and over a link boundary onto a slower link, dt up to 2 s"),
            H("h_c01_closed", "one step towards a closed link, dt up to 0.5 s"),
            H("h_c01_between_refreshes", "a step that reuses the acceleration computed in the previous one"),
        ],
    },
    "C02": {
        "assumptions": ["straight links, one limit of 16 m/s and free road otherwise"],
        "harnesses": [
            H("h_c02_same_link", "one step; leader on the same link, arbitrary attributes, gaps, speeds up to 40 m/s and dt"),
            H("h_c02_next_link", "leader on the next link of the route"),
            H("h_c02_three", "three vehicles in any order: only the nearest one ahead counts"),
            H("h_c02_pulling_away", "a leader that is faster and not closer than 2 m plus the headway"),
            H("h_c02_monotone", "two situations compared: smaller gap, slower leader (gaps not within 1 mm of the 2 m at which the response jumps)"),
        ],
    },
    "C03": {
        "assumptions": ["straight links with a limit of 16 m/s; speeds up to 20 m/s; each step up to 0.2 s uses an acceleration of its own start"],
        "harnesses": [
            H("h_c03_induction", "a step that brakes as the other harnesses show keeps the gap and the room to stop: arithmetic alone"),
            H("h_c03_car", "one step from any safe state on one link; follower of any length with the usual attributes; leader driving or braking fully"),
            H("h_c03_truck", "slow and patient follower (1 m/s^2, 1.5 m/s^2, 2 s)"),
            H("h_c03_cautious", "cautious follower (1.5 m/s^2, 1 m/s^2, 3 s)"),
            H("h_c03_brisk", "brisk follower (2.5 m/s^2, 2 m/s^2, 1.5 s)", tier="thorough"),
            H("h_c03_next_link", "leader on the next link with its rear still on this one", cost=5),
        ],
    },
    "C04": {
        "assumptions": ["straight links; the adjustment factor, drawn at random by the library, is set to any value from 0.8 to 1.2"],
        "harnesses": [
            H("h_c04_current", "one step on a free road; any limit, adjustment, speed up to three times the desired one, dt up to 0.2 s"),
            H("h_c04_rate", "how fast it speeds up or slows down, dt up to 1 s"),
            H("h_c04_follower", "a vehicle behind another one"),
            H("h_c04_upcoming", "a slower or faster link ahead, 1 cm to 60 m away, three adjustment factors, dt up to 0.5 s"),
        ],
    },
    "C05": {
        "assumptions": ["straight links"],
        "harnesses": [
            H("h_c05_brakes", "one step of a frozen vehicle with another vehicle anywhere around it and a link ahead open or closed"),
            H("h_c05_stays", "four steps of a stopped frozen vehicle"),
            H("h_c05_release", "frozen and released against never frozen, with a vehicle ahead that is frozen or not"),
            H("h_c05_status", "every sequence of four freeze, release and remove calls on three vehicles"),
        ],
    },
    "C06": {
        "assumptions": ["phases that do not themselves ask for two excluding movements"],
        "harnesses": [
            H("h_c06_pair", "two excluding movements, arbitrary times, nine steps of 0 to 30 s"),
            H("h_c06_pair_deep", "as h_c06_pair with fourteen steps", tier="thorough", replaces="h_c06_pair"),
            H("h_c06_masks", "three movements, every conflict mask and every pair of phases, six steps of 0 to 30 s", cost=20),
            H("h_c06_masks_deep", "as h_c06_masks with eight steps", tier="thorough", replaces="h_c06_masks", args=["--max-paths", "3000000"]),
        ],
    },
    "C07": {
        "assumptions": [],
        "harnesses": [
            H("h_c07_phases", "three phases of one movement each, arbitrary durations and amber times, nine steps of 0 to 80 s"),
            H("h_c07_joint", "a phase of two movements, one of them shared with the previous phase, seven steps", cost=5),
            H("h_c07_joint_deep", "as h_c07_joint with ten steps", tier="thorough", replaces="h_c07_joint"),
            H("h_c07_return", "movements without conflicts, amber back to green, eight steps"),
            H("h_c07_links", "controls reported for the links of three movements, eight steps"),
            H("h_c07_no_phases", "lights without phases or without anything"),
        ],
    },
    "C08": {
        "assumptions": ["straight links with a limit of 16 m/s, speeds up to 20 m/s, maximum acceleration and comfortable deceleration of 1 to 3 m/s^2, headway 1 to 4 s"],
        "harnesses": [
            H("h_c08_closed", "one step from any state able to stop before a closed link, dt up to 0.2 s, and what such a step leads to"),
            H("h_c08_red", "the same before a red light"),
            H("h_c08_dead_end", "the same where the route ends"),
            H("h_c08_open", "an open link does not hold up a vehicle"),
            H("h_c08_committed", "too close to stop, then closed: goes through"),
            H("h_c08_not_committed", "far enough to stop, then closed: does not"),
            H("h_c08_short", "committed to the link after next"),
            H("h_c08_open_far", "several open links, short and long"),
        ],
    },
    "C09": {
        "assumptions": ["the shared area of two links is known up to 0.3 m", "of several positions and speeds some are from a small set in each harness"],
        "harnesses": [
            H("h_c09_distance", "any distance, nobody else there"),
            H("h_c09_stop", "stop signs"),
            H("h_c09_gap", "gaps between vehicles anywhere", cost=3),
            H("h_c09_speeds", "gaps between vehicles of any speed"),
            H("h_c09_crossing", "traffic already on the crossing link"),
            H("h_c09_priority", "higher, equal and lower priorities"),
            H("h_c09_queue", "taking turns", cost=5),
            H("h_c09_limits", "links of different speed limits"),
            H("h_c09_far", "a crossing far beyond the end of a link"),
            H("h_c09_second", "two lines in a row"),
            H("h_c09_routes", "main road in pieces, some vehicles turning off", cost=3),
        ],
    },
    "C10": {
        "assumptions": ["vehicles that do not drive through each other (see C03)"],
        "harnesses": [
            H("h_c10_advance", "three vehicles over two links, passing on or leaving"),
            H("h_c10_short", "several short links in one step"),
            H("h_c10_merge", "two links into one"),
            H("h_c10_calls", "four calls in any order, then a step", cost=10),
        ],
    },
    "C11": {
        "assumptions": ["lengths of 60 m, in groups 120 m; one vehicle"],
        "harnesses": [
            H("h_c11_three", "three links, all connections and destinations"),
            H("h_c11_four", "four links, all connections forwards and one back", cost=30),
            H("h_c11_four_deep", "four links, all connections", tier="thorough", replaces="h_c11_four", cost=200, args=["--max-paths", "1000000"]),
            H("h_c11_change", "the destination changes", cost=15),
            H("h_c11_none", "no destination"),
            H("h_c11_lanes", "two groups of two lanes, all connections and lane change masks", cost=25),
            H("h_c11_fastest", "two ways with any speed limits"),
            H("h_c11_called", "lane changes asked for by the user"),
            H("h_c11_staggered", "three lanes offset along the road"),
        ],
    },
    "C12": {
        "assumptions": [],
        "harnesses": [H("h_c12_" + n, "group of %s lanes, all masks" % n) for n in ("two", "three", "four", "five")] + [
            H("h_c12_single", "a link outside any group"),
        ],
    },
    "C13": {
        "assumptions": ["lanes 3.5 m apart; on bends a set of concrete places only"],
        "harnesses": [
            H("h_c13_start", "lane changes started anywhere on the link"),
            H("h_c13_distance", "any lane change distance"),
            H("h_c13_drift", "a step during the change", cost=8),
            H("h_c13_cross", "over the end of the new lane"),
            H("h_c13_crossed", "after the end of the new lane"),
            H("h_c13_back", "changing back half way"),
            H("h_c13_bend", "between bends"),
        ],
    },
    "C14": {
        "assumptions": ["whole positions up to 1e-6 m are sampled as constants, everything in between symbolically"],
        "harnesses": [H("h_c14_" + n, a) for n, a in (
            ("line", "straight, whole length"), ("vertical", "straight, fractional length"),
            ("slanted", "straight, slanted"), ("short", "straight, half a metre"),
            ("turn", "quarter turn"), ("bend", "long bend"), ("u_turn", "u turn"), ("s_curve", "S shape"))] + [
            H("h_c14_beyond", "straight, beyond the ends"),
            H("h_c14_anywhere", "position of any bit pattern, exact floating point", args=["--mode", "fp"]),
        ],
    },
    "C15": {
        "assumptions": ["on the slanted road and round bends a set of concrete places only"],
        "harnesses": [
            H("h_c15_east", "two steps along a straight road", cost=4),
            H("h_c15_north", "two steps along a straight road", cost=5),
            H("h_c15_west", "two steps along a straight road", cost=5),
            H("h_c15_slanted", "a slanted road, cars of any size"),
            H("h_c15_cross", "over the end of a link"),
            H("h_c15_corner", "round a right-angled corner"),
            H("h_c15_bend", "round a bend", cost=7),
            H("h_c15_lane_change", "while changing lanes"),
        ],
    },
    "C16": {
        "assumptions": ["coordinates within 100 m of the origin, slopes up to 10; fitted cubics at least 1 m wide"],
        "harnesses": [
            H("h_c16_fit", "values and slopes of fitted cubics"),
            H("h_c16_fit_backwards", "the same with the second point left of the first"),
            H("h_c16_cubic", "fitted cubics in between"),
            H("h_c16_derivative", "slope and translation of cubics"),
            H("h_c16_quadratic", "quadratic Bezier curves"),
            H("h_c16_cubic_bezier", "cubic Bezier curves: construction, ends, reversal"),
            H("h_c16_cubic_derivative", "derivative of cubic Bezier curves"),
            H("h_c16_subdivide", "subdivision at any parameter"),
            H("h_c16_line", "lines as cubic curves"),
            H("h_c16_segment", "line segments"),
            H("h_c16_point_segment", "line segments of no length"),
            H("h_c16_approximate", "derivatives of curves that do not provide them"),
            H("h_c16_vectors", "quarter turns and local coordinates"),
            H("h_c16_normalize", "unit vectors and their derivatives"),
        ],
    },
    "C17": {
        "assumptions": ["maximum accelerations of 0.5 to 5 m/s^2, distances up to 300 m, speeds up to 40 m/s"],
        "harnesses": [
            H("h_c17_exact", "speeds up to the top speed"),
            H("h_c17_fast", "speeds above the top speed"),
            H("h_c17_behind", "points at or behind the vehicle"),
            H("h_c17_monotone", "two distances compared", cost=10),
        ],
    },
    "C18": {
        "assumptions": ["segments along the axes, for projections from a guess also slanted ones",
                        "segments that stay apart do so by one of a few distances; round a bend a set of places with any heading"],
        "harnesses": [
            H("h_c18_guess", "any point, any guess"),
            H("h_c18_no_guess", "any point, no guess"),
            H("h_c18_slanted", "slanted segments"),
            H("h_c18_link", "points beside a straight link"),
            H("h_c18_bend", "points beside a bend, any heading"),
            H("h_c18_crossing", "segments crossing anywhere"),
            H("h_c18_apart", "one segment ends before the other one"),
            H("h_c18_beyond", "one segment crosses beyond the ends of the other one"),
            H("h_c18_parallel", "segments side by side", cost=3),
        ],
    },
    "C19": {
        "assumptions": ["bounds up to 1e6 in real mode; every 64-bit pattern in the two exact harnesses"],
        "harnesses": [
            H("h_c19_pairs", "two intervals"),
            H("h_c19_points", "interval and point"),
            H("h_c19_algebra", "length, middle, shifts, discs"),
            H("h_c19_lerp", "interpolation and its inverse"),
            H("h_c19_table", "tables of one to six cells, any place, any step"),
            H("h_c19_lookup_any", "lookup of any bit pattern, exact floating point", args=["--mode", "fp"], cost=5),
            H("h_c19_interval_any", "intervals of any bit patterns, exact floating point", args=["--mode", "fp"]),
        ],
    },
    "C20": {
        "assumptions": ["the shared area of two links is known up to 0.3 m", "the vehicle merging from aside is at one of five places, the other one has one of four speeds"],
        "harnesses": [
            H("h_c20_cross", "two links crossing at right angles", cost=20),
            H("h_c20_overlap", "two links side by side"),
            H("h_c20_merge", "two links with the same end", cost=16),
            H("h_c20_three", "three vehicles taking turns"),
            H("h_c20_same", "two vehicles on one link, one on the other"),
            H("h_c20_lengths", "vehicles of different lengths", cost=3),
            H("h_c20_before", "from the link before the crossing"),
        ],
    },
    "C21": {
        "assumptions": ["vehicles up to 75 m ahead (the code looks five seconds ahead)", "nothing is claimed within 1 cm of the needed room"],
        "harnesses": [
            H("h_c21_two", "two lanes, vehicles of any width", cost=6),
            H("h_c21_three", "any two of three lanes starting at different places", cost=8),
            H("h_c21_behind", "vehicles behind or alongside"),
            H("h_c21_before", "from the link before the lanes"),
            H("h_c21_leaving", "vehicle ahead leaving the lane"),
            H("h_c21_overtaking", "leaving the lane behind another vehicle"),
            H("h_c21_several", "two vehicles in one lane, three in the other one", cost=3),
        ],
    },
    "C22": {
        "assumptions": ["time steps of 0 to 0.4 s; three or four of them in a row"],
        "harnesses": [
            H("h_c22_acceleration", "when accelerations are reconsidered, four steps"),
            H("h_c22_lanes", "when routes are reconsidered, three steps"),
            H("h_c22_independent", "with and without vehicles elsewhere"),
            H("h_c22_order", "vehicles added in either order"),
            H("h_c22_acceleration_deep", "when accelerations are reconsidered, five steps", tier="thorough",
              replaces="h_c22_acceleration", cost=20),
        ],
    },
    "C23": {
        "assumptions": [],
        "harnesses": [
            H("h_c23_three", "three links, all connections"),
            H("h_c23_four", "four links, all connections", cost=4),
            H("h_c23_groups", "two groups of two lanes, all connections and lane change masks"),
        ],
    },
    "C24": {
        "assumptions": ["evenly spaced points on straight lines only; curved links are sampled in C14"],
        "harnesses": [
            H("h_c24_along", "evenly spaced along the x axis"),
            H("h_c24_down", "evenly spaced against the y axis"),
            H("h_c24_halved", "a line cut to a greatest length"),
            H("h_c24_quadratic", "a bend of any height cut to 3 m"),
            H("h_c24_cubic", "an S shape of any height cut to 4 m"),
            H("h_c24_most", "a quarter turn cut to any length"),
        ],
    },
    "C25": {
        "assumptions": [],
        "harnesses": [
            H("h_c25_connections", "every way of connecting three links"),
            H("h_c25_links", "length, limit and travel time"),
            H("h_c25_vehicles", "size, place and destination of two vehicles"),
            H("h_c25_lights", "frames and lights over three steps"),
        ],
    },
}
