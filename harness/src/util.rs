//! Shared set-up code.

use crate::sym;
use traffic_sim::math::{LineSegment2d, Point2d};
use traffic_sim::{LinkAttributes, LinkId, Simulation, VehicleAttributes, VehicleId};

/// Tolerance of comparisons between speeds, positions and the like: above any
/// rounding error within the bounds, far below any meaningful difference.
pub const TOL: f64 = 1e-3;

/// Tolerance where nothing but rounding may come between two values.
pub const EPS: f64 = 1e-4;

/// The greatest deceleration, in m/s^2.
pub const MAX_DEC: f64 = 6.0;

/// A straight link between two points.
pub fn line(s: &mut Simulation, a: [f64; 2], b: [f64; 2], speed_limit: f64) -> LinkId {
    let curve = LineSegment2d::from_ends(Point2d::new(a[0], a[1]), Point2d::new(b[0], b[1]));
    s.add_link(&LinkAttributes { curve: &curve, speed_limit })
}

/// A chain of two straight links along the x axis, connected at `mid`.
pub fn chain(s: &mut Simulation, mid: f64, end: f64, limits: [f64; 2]) -> [LinkId; 2] {
    let a = line(s, [0.0, 0.0], [mid, 0.0], limits[0]);
    let b = line(s, [mid, 0.0], [end, 0.0], limits[1]);
    s.add_link_connection(a, b);
    [a, b]
}

/// A typical car.
pub const CAR: VehicleAttributes = VehicleAttributes {
    width: 2.0,
    length: 5.0,
    wheel_base: 1.5,
    headway: 1.5,
    max_acc: 2.0,
    comf_dec: 2.0,
};

/// A car with arbitrary length, headway, acceleration and deceleration.
pub fn any_car() -> VehicleAttributes {
    VehicleAttributes {
        max_acc: sym::f64("max_acc", 0.5, 5.0),
        comf_dec: sym::f64("comf_dec", 0.5, 5.0),
        headway: sym::f64("headway", 0.0, 4.0),
        length: sym::f64("length", 1.0, 20.0),
        ..CAR
    }
}

/// A car at the start of its link, on its way to `dst`.
pub fn car_to(s: &mut Simulation, attribs: &VehicleAttributes, link: LinkId, dst: LinkId) -> VehicleId {
    let v = s.add_vehicle(attribs, link);
    s.set_vehicle_destination(v, dst);
    v
}

/// Runs long frames so that routes are chosen and the next frame refreshes
/// accelerations and lanes.
pub fn warm_up(s: &mut Simulation) {
    s.step(0.3);
    s.step(0.3);
}

/// Position, velocity.
pub fn motion(s: &Simulation, v: VehicleId) -> (f64, f64) {
    let v = s.get_vehicle(v);
    sym::note("pos", v.pos_mid());
    sym::note("vel", v.vel());
    (v.pos_mid(), v.vel())
}

pub fn min(a: f64, b: f64) -> f64 {
    f64::min(a, b)
}

pub fn max(a: f64, b: f64) -> f64 {
    f64::max(a, b)
}

/// Whether two numbers agree up to the tolerance.
pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < TOL
}

/// The acceleration of the intelligent driver model.
pub fn idm(car: &VehicleAttributes, gap: f64, v: f64, ahead: f64) -> f64 {
    if gap <= 2.0 {
        return -10.0 * car.max_acc;
    }
    let desired = 2.0 + max(0.0, v * car.headway + v * (v - ahead) / (2.0 * (car.max_acc * car.comf_dec).sqrt()));
    car.max_acc * (1.0 - (desired / gap) * (desired / gap))
}

/// The acceleration on a free road.
pub fn free(car: &VehicleAttributes, v: f64, limit: f64) -> f64 {
    let r = v / limit;
    car.max_acc * (1.0 - r * r * r * r)
}

/// The speed after a step.
pub fn next_speed(v: f64, acc: f64, dt: f64) -> f64 {
    max(v + dt * max(acc, -MAX_DEC), 0.0)
}
