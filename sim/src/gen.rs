//! Seeded generation of arguments: clusters of values that are equal, nearly
//! equal, or equal in part, so that state kept under an incomplete key shows.
use crate::dict;
use simcore::rng::Rng;
use simops::{Spec, K};

pub const J2000: f64 = 2451545.0;
pub const MJD0: f64 = 2400000.5;

pub struct Pool {
    /// dates as one number
    pub jd: Vec<f64>,
    /// the same date split in two ways or more
    pub split: Vec<(f64, f64)>,
    pub angle: Vec<f64>,
    pub small: Vec<f64>,
    pub vec: Vec<[f64; 3]>,
    pub mat: Vec<[f64; 9]>,
    pub date: Vec<[i64; 3]>,
    pub frac: Vec<f64>,
    pub lat: Vec<f64>,
    pub lon: Vec<f64>,
    pub height: Vec<f64>,
    pub offset: Vec<f64>,
    pub hms: Vec<(i64, i64, f64)>,
    /// probability of arguments the library rejects
    pub reject: f64,
    /// probability of arguments on which it may panic
    pub panicky: f64,
}

fn ulps(x: f64, n: i64) -> f64 {
    if !x.is_finite() || x == 0.0 {
        return if n >= 0 { f64::from_bits(n as u64) } else { -f64::from_bits((-n) as u64) };
    }
    f64::from_bits((x.to_bits() as i64).wrapping_add(n) as u64)
}

/// Arguments on which results are not numbers, infinite, or meaningless.
const SPECIAL: [f64; 10] = [
    f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e300, -1e18, 5e-324, f64::MAX, 1e9,
];

/// A value close to, or confusable with, x.
pub fn nudge(x: f64, rng: &mut Rng) -> f64 {
    match rng.below(14) {
        0 => ulps(x, 1),
        1 => ulps(x, -1),
        2 => ulps(x, rng.range(-64, 64)),
        3 => x + 1e-12,
        4 => x + 1e-9,
        5 => x + 1.0 / 86400.0,
        6 => x + 1.0,
        7 => x - 1.0,
        8 => -x,
        9 => x * (1.0 + 1e-15 * rng.range(-9, 9) as f64),
        10 => x + 0.5,
        11 => x + 36525.0,
        12 => (x as f32) as f64,
        _ => {
            if x == 0.0 {
                -0.0
            } else {
                x * (1.0 + rng.f64() * 1e-3)
            }
        }
    }
}

pub fn jd_total(rng: &mut Rng) -> f64 {
    match rng.below(12) {
        0 => J2000,
        1 => J2000 + rng.range(-40000, 40000) as f64,
        2 | 3 | 4 => J2000 + (rng.f64() - 0.5) * 72000.0,
        5 => J2000 + (rng.f64() - 0.5) * 40.0 * 36525.0,
        6 => 2454195.5 + rng.f64() * 3.0,
        7 => MJD0 + rng.range(40000, 60000) as f64,
        8 => J2000 + 36525.0 + (rng.f64() - 0.5) * 10.0,
        9 => J2000 - 36525.0 + (rng.f64() - 0.5) * 10.0,
        10 => J2000 + (rng.f64() - 0.5) * 1000.0 * 36525.0,
        _ => J2000 + (rng.f64() - 0.5) * 2.0,
    }
}

pub fn split(t: f64, rng: &mut Rng) -> (f64, f64) {
    match rng.below(9) {
        0 => (t, 0.0),
        1 => (MJD0, t - MJD0),
        2 => (J2000, t - J2000),
        3 => ((t - 0.5).floor() + 0.5, t - ((t - 0.5).floor() + 0.5)),
        4 => (t - MJD0, MJD0),
        5 => (t - 0.25, 0.25),
        6 => (0.0, t),
        7 => (t + 1.0, -1.0),
        _ => {
            let a = (t * 0.5).floor();
            (a, t - a)
        }
    }
}

const BOUNDARY: [(i64, i64); 18] = [
    (1960, 1), (1961, 1), (1961, 8), (1962, 1), (1963, 11), (1964, 4), (1965, 9), (1966, 1), (1968, 2), (1972, 1), (1972, 7),
    (1980, 1), (1981, 7), (1999, 1), (2006, 1), (2012, 7), (2015, 7), (2017, 1),
];

pub fn date(rng: &mut Rng) -> [i64; 3] {
    let last = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    match rng.below(9) {
        0 | 1 => {
            let (y, m) = *rng.pick(&BOUNDARY);
            match rng.below(3) {
                0 => [y, m, 1],
                1 => {
                    if m == 1 {
                        [y - 1, 12, 31]
                    } else {
                        [y, m - 1, last[m as usize - 2]]
                    }
                }
                _ => [y, m, rng.range(1, 28)],
            }
        }
        2 => {
            let y = rng.range(1890, 2110);
            [y, 2, rng.range(27, 29)]
        }
        3 => [rng.range(-4799, 9999), rng.range(1, 12), rng.range(1, 28)],
        4 => [*rng.pick(&[1600i64, 1700, 1900, 2000, 2100, 2400, 0, -4, -100, -400, -4799]), rng.range(1, 12), rng.range(1, 28)],
        5 => {
            let m = rng.range(1, 12);
            [rng.range(1950, 2030), m, last[m as usize - 1]]
        }
        _ => [rng.range(1955, 2030), rng.range(1, 12), rng.range(1, 28)],
    }
}

fn bad_date(rng: &mut Rng) -> [i64; 3] {
    match rng.below(10) {
        7 => [1904 + 4 * rng.range(0, 48), 2, rng.range(30, 31)],
        8 => [*rng.pick(&[1700i64, 1800, 1900, 2100]), 2, 29],
        9 => [rng.range(1900, 2100), *rng.pick(&[4i64, 6, 9, 11]), 31],
        0 => [rng.range(-9000, -4800), rng.range(1, 12), rng.range(1, 28)],
        1 => [rng.range(1900, 2100), 0, rng.range(1, 28)],
        2 => [rng.range(1900, 2100), 13, rng.range(1, 28)],
        3 => [rng.range(1900, 2100), rng.range(1, 12), 0],
        4 => [rng.range(1900, 2100), rng.range(1, 12), 32],
        5 => [2001 + 4 * rng.range(0, 20), 2, 29],
        _ => [rng.range(1900, 2100), rng.range(-3, 15), rng.range(-2, 35)],
    }
}

fn rotation(axis: u64, a: f64) -> [f64; 9] {
    let (s, c) = a.sin_cos();
    match axis % 3 {
        0 => [1., 0., 0., 0., c, s, 0., -s, c],
        1 => [c, 0., -s, 0., 1., 0., s, 0., c],
        _ => [c, s, 0., -s, c, 0., 0., 0., 1.],
    }
}
fn mul(a: &[f64; 9], b: &[f64; 9]) -> [f64; 9] {
    let mut r = [0.0; 9];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[3 * i + j] += a[3 * i + k] * b[3 * k + j];
            }
        }
    }
    r
}

impl Pool {
    pub fn new(rng: &mut Rng) -> Pool {
        let n = 1 + rng.below(4) as usize;
        let mut p = Pool {
            jd: vec![],
            split: vec![],
            angle: vec![],
            small: vec![],
            vec: vec![],
            mat: vec![],
            date: vec![],
            frac: vec![],
            lat: vec![],
            lon: vec![],
            height: vec![],
            offset: vec![],
            hms: vec![],
            reject: *rng.pick(&[0.0, 0.05, 0.2, 0.5]),
            panicky: 0.0,
        };
        for _ in 0..n {
            let t = jd_total(rng);
            p.jd.push(t);
            for _ in 0..1 + rng.below(2) {
                let s = split(t, rng);
                p.split.push(s);
                if rng.chance(0.5) {
                    p.split.push((s.0, nudge(s.1, rng)));
                }
                if rng.chance(0.2) {
                    p.split.push((s.1, s.0));
                }
            }
            let a = match rng.below(5) {
                0 => (rng.f64() - 0.5) * 6.283185307179586,
                1 => (rng.f64() - 0.5) * 100.0,
                2 => rng.range(-4, 4) as f64 * std::f64::consts::FRAC_PI_2,
                3 => (rng.f64() - 0.5) * 1e-5,
                _ => rng.f64() * 0.1,
            };
            p.angle.push(a);
            p.angle.push(nudge(a, rng));
            let x = (rng.f64() - 0.5) * 1e-5;
            p.small.push(x);
            if rng.chance(0.5) {
                p.small.push(nudge(x, rng));
            }
            if rng.chance(0.2) {
                p.small.push(0.0);
            }
            let s = *rng.pick(&[1.0, 6.4e6, 1e-3, 1.5e11]);
            let v = [(rng.f64() - 0.5) * s, (rng.f64() - 0.5) * s, (rng.f64() - 0.5) * s];
            p.vec.push(v);
            p.vec.push([v[0], v[1], nudge(v[2], rng)]);
            if rng.chance(0.2) {
                p.vec.push(*rng.pick(&[[0.0, 0.0, s], [0.0, 0.0, -s], [s, 0.0, 0.0], [0.0, 0.0, 0.0], [-s, 1e-9, 0.0]]));
            }
            let m = mul(&rotation(rng.below(3), a), &rotation(rng.below(3), x));
            p.mat.push(m);
            if rng.chance(0.3) {
                let mut m2 = m;
                let k = rng.below(9) as usize;
                m2[k] = nudge(m2[k], rng);
                p.mat.push(m2);
            }
            p.date.push(date(rng));
            if rng.chance(0.5) {
                let d = *p.date.last().unwrap();
                p.date.push([d[0], d[1], 1 + d[2] % 28]);
            }
            let f = match rng.below(7) {
                0 => 0.0,
                6 => *rng.pick(&[1.0, 1.0 - 1e-16, 1e-300]),
                1 => 0.5,
                2 => 0.999999999,
                3 => rng.range(0, 86399) as f64 / 86400.0,
                _ => rng.f64(),
            };
            p.frac.push(f);
            let la = match rng.below(6) {
                0 => 0.0,
                1 => rng.range(-89, 89) as f64,
                2 => *rng.pick(&[90.0, -90.0, 89.999999]),
                _ => (rng.f64() - 0.5) * 179.0,
            };
            p.lat.push(la);
            let lo = match rng.below(6) {
                0 => -120.0,
                1 => rng.range(-180, 180) as f64,
                2 => 0.0,
                _ => (rng.f64() - 0.5) * 720.0,
            };
            p.lon.push(lo);
            p.height.push(*rng.pick(&[0.0, 100.0, -50.0, 8848.0, 4e5, 3.6e7]));
            p.height.push((rng.f64() - 0.1) * 1e4);
            let o = match rng.below(7) {
                0 => 0.0,
                1 => rng.range(-10, 10) as f64 * 60.0,
                2 => rng.range(-100, 100) as f64 * 3600.0,
                3 => rng.range(-400, 400) as f64 * 86400.0,
                4 => (rng.f64() - 0.5) * 1200.0,
                5 => (rng.f64() - 0.5) * 1e10,
                _ => rng.f64(),
            };
            p.offset.push(o);
            p.offset.push(nudge(o, rng));
            let s = match rng.below(4) {
                0 => 0.0,
                1 => 59.9999999,
                2 => rng.range(0, 59) as f64,
                _ => rng.f64() * 60.0,
            };
            p.hms.push((rng.range(0, 23), rng.range(0, 59), s));
        }
        if rng.chance(0.5) {
            p.named(rng);
        }
        p
    }
    /// Some values as the library's source names them.
    fn named(&mut self, r: &mut Rng) {
        for _ in 0..2 + r.below(8) {
            let Some(x) = dict::float(r) else { return };
            match r.below(12) {
                0 => self.offset.push(x),
                1 => self.height.push(x),
                2 => self.lat.push(x % 91.0),
                3 => self.lon.push(x % 720.0),
                4 => self.angle.push(x),
                5 => self.small.push(x * *r.pick(&[1.0, 1e-3, 1e-6])),
                6 => self.frac.push(x.abs() % 1.0),
                7 => {
                    let t = if x.abs() > 1e6 { x } else { x + *r.pick(&[J2000, MJD0]) };
                    self.jd.push(t);
                    if t.abs() < 1e8 {
                        let s = split(t, r);
                        self.split.push(s)
                    }
                }
                8 => self.hms.push((r.range(0, 23), r.range(0, 59), x.abs() % 60.0)),
                9 => {
                    let d = [dict::int(r, -4799, 9999), dict::int(r, 1, 12), dict::int(r, 1, 28)];
                    let o = *r.pick(&self.date);
                    let only = r.below(4);
                    self.date.push([0, 1, 2].map(|k| if only == 3 || only as usize == k { d[k].unwrap_or(o[k]) } else { o[k] }))
                }
                10 => {
                    let h = (dict::int(r, 0, 23).unwrap_or(12), dict::int(r, 0, 59).unwrap_or(30), dict::int(r, 0, 59).unwrap_or(15));
                    self.hms.push((h.0, h.1, h.2 as f64))
                }
                _ => {
                    let mut v = *r.pick(&self.vec);
                    v[r.below(3) as usize] = x;
                    self.vec.push(v)
                }
            }
        }
    }
    fn jd2(&self, r: &mut Rng) -> (f64, f64) {
        *r.pick(&self.split)
    }
}

fn b(x: f64) -> u64 {
    x.to_bits()
}

/// Arguments of one call.
pub fn args(k: K, p: &Pool, r: &mut Rng) -> (Vec<u64>, Vec<i64>) {
    let bad = r.chance(p.reject);
    let panic = r.chance(p.panicky);
    let mut f: Vec<f64> = vec![];
    let mut i: Vec<i64> = vec![];
    macro_rules! jd {
        () => {{
            let (x, y) = p.jd2(r);
            f.push(x);
            f.push(y);
        }};
    }
    macro_rules! one {
        ($v:ident) => {{
            let x = *r.pick(&p.$v);
            f.push(x)
        }};
    }
    macro_rules! v3 {
        () => {{
            let x = *r.pick(&p.vec);
            f.extend_from_slice(&x)
        }};
    }
    macro_rules! m9 {
        () => {{
            let x = *r.pick(&p.mat);
            f.extend_from_slice(&x)
        }};
    }
    let centuries = |r: &mut Rng| (*r.pick(&p.jd) - J2000) / 36525.0;
    let dt = |r: &mut Rng, i: &mut Vec<i64>| {
        let d = if panic {
            [*r.pick(&[i32::MAX as i64, i32::MIN as i64, 2_000_000, 1_500_000_000]), r.range(1, 12), r.range(1, 28)]
        } else if bad {
            bad_date(r)
        } else {
            *r.pick(&p.date)
        };
        i.extend_from_slice(&d)
    };
    match k {
        K::Anp => one!(angle),
        K::Prim => {
            if r.chance(0.5) {
                one!(angle)
            } else {
                one!(small)
            }
            one!(angle);
            i.push(r.range(0, 13))
        }
        K::VecNorm | K::VecNormalize | K::VecNeg => v3!(),
        K::VecScale => {
            v3!();
            one!(angle)
        }
        K::VecAdd | K::VecSub | K::VecDot | K::VecAngle => {
            v3!();
            v3!()
        }
        K::MatRotation => {
            one!(angle);
            i.push(if panic { r.range(3, 5) } else { r.range(0, 2) })
        }
        K::MatCompose => {
            m9!();
            m9!()
        }
        K::MatApply => {
            m9!();
            v3!()
        }
        K::MatTranspose | K::XyBpn => m9!(),

        K::TtFromUt1 | K::Ut1FromTt | K::TdbFromTt => {
            jd!();
            f.push(*r.pick(&[0.0, 32.184, 64.184, -0.072073685, 69.0]))
        }
        K::TaiFromUtc => {
            jd!();
            f.push(*r.pick(&[0.0, 10.0, 33.0, 37.0, 1.417818]))
        }
        K::TtFromTai => jd!(),
        K::TimeChain => {
            jd!();
            f.push(*r.pick(&[0.0, 10.0, 33.0, 37.0]));
            f.push(*r.pick(&[32.184, 64.184, 69.0]));
            f.push(*r.pick(&[0.0, 0.001, -0.0016]))
        }

        K::Epv | K::Era | K::C2I | K::Pn | K::PnInto | K::Nut | K::PrecRate | K::Obl | K::BiasPrec | K::PnDebug => jd!(),
        K::Pom => {
            one!(small);
            one!(small);
            one!(small)
        }
        K::C2T => {
            let (x, y) = p.jd2(r);
            f.push(x);
            f.push(y);
            match r.below(3) {
                0 => {
                    f.push(x);
                    f.push(y)
                }
                1 => {
                    f.push(x);
                    f.push(y - 65.0 / 86400.0)
                }
                _ => jd!(),
            }
            one!(small);
            one!(small)
        }
        K::PnWith => {
            jd!();
            one!(small);
            one!(small)
        }
        K::Bias | K::ConvEl | K::DropHandle | K::DefParams => (),
        K::NutMat => {
            f.push(0.409 + *r.pick(&p.small));
            one!(small);
            one!(small)
        }
        K::C2IBpn => {
            jd!();
            m9!()
        }
        K::C2IBpnXy | K::Cio => {
            jd!();
            one!(small);
            one!(small)
        }
        K::C2IXys => {
            one!(small);
            one!(small);
            one!(small)
        }
        K::C2TCio => {
            m9!();
            one!(angle);
            m9!()
        }
        K::Fund => {
            f.push(centuries(r));
            i.push(r.range(0, 7))
        }
        K::DateNew | K::DateToJd => dt(r, &mut i),
        K::DateFromJd | K::DhmsFrom => {
            if panic {
                f.push(*r.pick(&[6e8, 9.9e8, 5.5e8]));
                f.push(0.25)
            } else if bad {
                f.push(*r.pick(&[-32000.5, -1e7, 1.1e9, 2e9, -1e12]));
                f.push(*r.pick(&p.frac))
            } else {
                jd!()
            }
        }
        K::HmsFrom => {
            if bad {
                f.push(*r.pick(&[-1e-9, 1.0 + 1e-9, 2.0, -3.0, f64::NAN]))
            } else {
                one!(frac)
            }
        }
        K::HmsTo => {
            let h = *r.pick(&p.hms);
            f.push(h.2);
            i.push(h.0);
            i.push(h.1)
        }
        K::DhmsTo | K::RDhms => {
            let h = *r.pick(&p.hms);
            f.push(h.2);
            dt(r, &mut i);
            i.push(h.0);
            i.push(h.1)
        }
        K::Dat => {
            if bad && r.chance(0.5) {
                f.push(*r.pick(&[-0.5, 1.5, -1e-12, 1.0 + 1e-12]));
                i.extend_from_slice(r.pick(&p.date));
            } else {
                one!(frac);
                dt(r, &mut i)
            }
        }
        K::MkConv => {
            let s = ellipsoid(r);
            f.push(s.0);
            f.push(s.1)
        }
        K::ConvInv => {
            let s = *r.pick(&[6378137.0, 6356752.0, 7e6, 1e5, 4.2e7]);
            let v = *r.pick(&p.vec);
            let raw = r.chance(0.2);
            let n = if raw { 0.0 } else { 1.0 } * (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            if n > 0.0 {
                f.extend_from_slice(&[v[0] / n * s, v[1] / n * s, v[2] / n * s])
            } else {
                f.extend_from_slice(&v)
            }
        }
        K::ConvFwd | K::GdTo360 | K::Zenith | K::RGd => {
            let d = std::f64::consts::PI / 180.0;
            f.push(*r.pick(&p.lon) * d);
            f.push(*r.pick(&p.lat) * d);
            one!(height);
            if bad {
                let k = r.below(3) as usize;
                f[k] = *r.pick(&[f64::NAN, f64::INFINITY, 1e30])
            }
        }
        K::Gd360To | K::RGd360 => {
            one!(lon);
            one!(lat);
            one!(height)
        }
        K::MkCalc => {
            one!(lat);
            one!(lon);
            one!(height);
            let mut h = *r.pick(&p.hms);
            if panic {
                h.0 = r.range(25, 200)
            }
            f.push(h.2);
            i.extend_from_slice(r.pick(&p.date));
            i.push(h.0);
            i.push(h.1)
        }
        K::CalcCompute | K::RBundleH => one!(offset),
        K::RDate => dt(r, &mut i),
        K::RHms => {
            let h = *r.pick(&p.hms);
            f.push(h.2);
            i.push(h.0);
            i.push(h.1)
        }
        K::RBundle | K::RResult => {
            one!(lat);
            one!(lon);
            one!(height);
            let mut h = *r.pick(&p.hms);
            if panic {
                h.0 = r.range(25, 200)
            }
            f.push(h.2);
            one!(offset);
            if k == K::RResult {
                jd!();
                v3!();
                one!(angle)
            }
            i.extend_from_slice(r.pick(&p.date));
            i.push(h.0);
            i.push(h.1)
        }
        K::RErr => i.push(r.range(0, 9)),
    }
    (f.into_iter().map(b).collect(), i)
}

fn ellipsoid(r: &mut Rng) -> (f64, f64) {
    match r.below(12) {
        9 => (6e6 + r.f64() * 1e6, 1.0 / (280.0 + r.f64() * 40.0)),
        10 => (10f64.powf(1.0 + 8.0 * r.f64()), r.f64()),
        11 => ((r.range(6_378_130, 6_378_140)) as f64, 1.0 / r.range(295, 300) as f64),
        0 | 1 => (6378137.0, 1.0 / 298.257223563),
        2 => (6378137.0, 1.0 / 298.257222101),
        3 => (6378135.0, 1.0 / 298.26),
        4 => (6371000.0, 0.0),
        5 => (6378137.0, 0.0),
        6 => (1737400.0, 1.0 / 300.0),
        7 => (*r.pick(&[0.0, -1.0]), 1.0 / 298.0),
        _ => (6378137.0, *r.pick(&[1.0, -0.1, 2.0])),
    }
}

pub fn conv_spec(r: &mut Rng) -> Spec {
    let (a, f) = ellipsoid(r);
    Spec::Conv { a: b(a), f: b(f) }
}
pub fn calc_spec(p: &Pool, r: &mut Rng) -> Spec {
    let (f, i) = args(K::MkCalc, p, r);
    Spec::Calc { f: [f[0], f[1], f[2], f[3]], i: [i[0], i[1], i[2], i[3], i[4]] }
}
pub fn near_spec(s: &Spec, r: &mut Rng) -> Spec {
    let mut s = s.clone();
    match &mut s {
        Spec::Conv { a, f } => {
            if r.chance(0.5) {
                *a = b(f64::from_bits(*a) + *r.pick(&[1e-9, 1e-3, 1.0, 1000.0]));
            } else {
                *f = b(f64::from_bits(*f) * *r.pick(&[1.0 + 1e-15, 1.0 + 1e-9, 1.001, 0.5]));
            }
        }
        Spec::Calc { f, i } => match r.below(6) {
            0 => f[0] = b(near_deg(f64::from_bits(f[0]), r).clamp(-90.0, 90.0)),
            1 => f[1] = b(near_deg(f64::from_bits(f[1]), r)),
            2 => f[2] = b(nudge(f64::from_bits(f[2]), r)),
            3 => f[3] = b((f64::from_bits(f[3]) + 1.0) % 60.0),
            4 => i[4] = (i[4] + 1) % 60,
            _ => i[2] = 1 + i[2] % 28,
        },
    }
    s
}
fn near_deg(x: f64, r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => -x,
        1 => x + 1e-9,
        2 => x + 1.0,
        _ => x + 0.001,
    }
}

/// The same call with one argument changed a little: what differs only where
/// a careless key would not look.
pub fn mutate(k: K, f: &mut [u64], i: &mut [i64], r: &mut Rng, p: &Pool) {
    let n = f.len() + i.len();
    if n == 0 {
        return;
    }
    if n >= 2 && r.chance(0.15) {
        transfer(f, i, r);
    } else {
        let times = if r.chance(0.12) { 2 } else { 1 };
        for _ in 0..times {
            mutate_one(k, f, i, r, p);
        }
    }
    guard(k, f, i);
}

/// Two arguments that change against each other: what a key made of a sum, of
/// digits in some radix, or of unordered parts does not see.
fn transfer(f: &mut [u64], i: &mut [i64], r: &mut Rng) {
    let ints = i.len() >= 2 && (f.len() < 2 || r.chance(0.5));
    if ints {
        let a = r.below(i.len() as u64 - 1) as usize;
        let c = if r.chance(0.8) { a + 1 } else { r.below(i.len() as u64) as usize };
        let radix = *r.pick(&[1i64, 1, 10, 12, 13, 16, 24, 28, 29, 30, 31, 31, 32, 32, 60, 61, 64, 100, 100, 256, 400]);
        let d = *r.pick(&[1i64, 1, -1, -1, 2, -2]);
        if a != c {
            if r.chance(0.15) {
                i.swap(a, c);
            } else {
                i[a] += d;
                i[c] -= d * radix;
            }
        }
    } else if f.len() >= 2 {
        let a = r.below(f.len() as u64 - 1) as usize;
        let c = if r.chance(0.8) { a + 1 } else { r.below(f.len() as u64) as usize };
        let (x, y) = (f64::from_bits(f[a]), f64::from_bits(f[c]));
        if a == c {
            return;
        }
        let (x, y) = match r.below(8) {
            0 => (y, x),
            1 => (-x, -y),
            2 => (x, x),
            3 => (x * 2.0, y * 0.5),
            _ => {
                let d = *r.pick(&[0.5, 1.0, -1.0, 1.0 / 86400.0, 1e-3, 1e-6, 1e-9, 0.25, 100.0]);
                (x + d, y - d)
            }
        };
        f[a] = b(x);
        f[c] = b(y);
    }
}

fn mutate_one(k: K, f: &mut [u64], i: &mut [i64], r: &mut Rng, p: &Pool) {
    let j = r.below((f.len() + i.len()) as u64) as usize;
    if j < f.len() {
        if r.chance(0.25) {
            // the argument of another call in the same place
            let (g, _) = args(k, p, r);
            if j < g.len() {
                f[j] = g[j];
                return;
            }
        }
        f[j] = if r.chance(0.06) { b(*r.pick(&SPECIAL)) } else { b(nudge(f64::from_bits(f[j]), r)) };
    } else {
        let j = j - f.len();
        match r.below(12) {
            0 => i[j] = -i[j],
            1 => i[j] = *r.pick(&[0i64, 1, -1, 12, 13, 31, 32, 99, 100, 255, 256, 9999, 10000]),
            2 => i[j] += *r.pick(&[256i64, -256, 65536, 100, -100, 400, -400, 28, 19]),
            _ => i[j] += *r.pick(&[1i64, -1, 1, 2, 12]),
        }
    }
}

/// Keeps mutated arguments where the harness itself can represent them.
pub fn guard(k: K, f: &mut [u64], i: &mut [i64]) {
    match k {
        K::MatRotation => i[0] = i[0].rem_euclid(3),
        K::Fund => i[0] = i[0].rem_euclid(8),
        K::RErr => i[0] = i[0].rem_euclid(10),
        K::HmsTo | K::RHms => {
            i[0] = i[0].rem_euclid(24);
            i[1] = i[1].rem_euclid(60);
        }
        K::Prim => i[0] = i[0].rem_euclid(14),
        K::DhmsTo | K::RDhms | K::MkCalc | K::RBundle | K::RResult => {
            i[3] = i[3].rem_euclid(24);
            i[4] = i[4].rem_euclid(60);
        }
        _ => (),
    }
    let _ = f;
}
