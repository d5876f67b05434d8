//! Every operation a simulated caller can perform on the library, as data.
//! This crate is instrumented like the library itself, so that library code
//! inlined or instantiated here keeps its preemption points.
use serde::{Deserialize, Serialize};
use simcore::rt::{self, Ambient};
use simcore::sink::{Styled, Text, Sink, SinkPlan, Wrap};
use std::collections::BTreeMap;
use std::fmt::Display;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use tofas::calendar::{CalendarError, GregorianDate, GregorianDateHMS, HMS};
use tofas::common::*;
use tofas::delta_at::{DeltaAt, DeltaAtError};
use tofas::earth::{self, EarthPosVel};
use tofas::ellipsoid::{Ellipsoid, EllipsoidConverter, EllipsoidError, Geodetic, Geodetic360, WGS84};
use tofas::frames::{self, PrecessionNutation};
use tofas::time::{TAI, TDB, TT, UT1, UTC};
use tofas::{fundargs, locator};
use tofas_extras::sun_angle::{SunAngleCalculator, SunAngleParameters, SunAngleResult, SunAngleResultBundle};

macro_rules! kinds {
    ($($name:ident : $nf:expr, $ni:expr;)*) => {
        #[derive(Clone,Copy,Debug,PartialEq,Eq,Hash,PartialOrd,Ord,Serialize,Deserialize)]
        #[allow(non_camel_case_types)]
        pub enum K { $($name),* }
        pub const KINDS : &[K] = &[ $(K::$name),* ];
        impl K {
            /// Numbers of floating-point and integer arguments.
            pub fn arity(self)->(usize,usize) { match self { $(K::$name => ($nf,$ni)),* } }
        }
    }
}

kinds! {
    // common
    Anp:1,0; VecNorm:3,0; VecNormalize:3,0; VecScale:4,0; VecAdd:6,0; VecSub:6,0; VecNeg:3,0; VecDot:6,0; VecAngle:6,0;
    Prim:2,1; MatRotation:1,1; MatCompose:18,0; MatApply:12,0; MatTranspose:9,0;
    // time
    TtFromUt1:3,0; TtFromTai:2,0; TaiFromUtc:3,0; TdbFromTt:3,0; Ut1FromTt:3,0; TimeChain:5,0;
    // earth
    Epv:2,0; Era:2,0; Pom:3,0;
    // frames
    C2T:6,0; C2I:2,0; Pn:2,0; PnInto:2,0; PnWith:4,0; Nut:2,0; PrecRate:2,0; Obl:2,0; BiasPrec:2,0; Bias:0,0; NutMat:3,0;
    C2IBpn:11,0; C2IBpnXy:4,0; C2IXys:3,0; XyBpn:9,0; C2TCio:19,0;
    // locator, fundamental arguments
    Cio:4,0; Fund:1,1;
    // calendar
    DateNew:0,3; DateToJd:0,3; DateFromJd:2,0; HmsFrom:1,0; HmsTo:1,2; DhmsFrom:2,0; DhmsTo:1,5;
    // leap seconds
    Dat:1,3;
    // ellipsoid
    MkConv:2,0; ConvInv:3,0; ConvFwd:3,0; ConvEl:0,0; GdTo360:3,0; Gd360To:3,0; Zenith:3,0;
    // Sun angle
    MkCalc:4,5; CalcCompute:1,0; DropHandle:0,0; DefParams:0,0;
    // renderings
    RDate:0,3; RHms:1,2; RDhms:1,5; RGd:3,0; RGd360:3,0; RBundle:5,5; RErr:0,1;
    // debug rendering of the full precession-nutation set
    PnDebug:2,0;
    // a result of a (shared) calculator, and one filled in by the caller
    RBundleH:1,0; RResult:11,5;
}

impl K {
    pub fn is_render(self) -> bool {
        matches!(self, K::RDate | K::RHms | K::RDhms | K::RGd | K::RGd360 | K::RBundle | K::RErr | K::PnDebug | K::RBundleH | K::RResult)
    }
    /// Works on a handle.
    pub fn needs_handle(self) -> bool {
        matches!(self, K::ConvInv | K::ConvFwd | K::ConvEl | K::CalcCompute | K::DropHandle | K::RBundleH)
    }
    pub fn makes_handle(self) -> bool {
        matches!(self, K::MkConv | K::MkCalc)
    }
}

/// How a handle is made.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Spec {
    Conv { a: u64, f: u64 },
    /// lat, lon, height, second; year, month, day, hour, minute
    Calc { f: [u64; 4], i: [i64; 5] },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Href {
    /// The operation has no handle.
    None,
    /// Handle number n shared by all threads.
    Shared(u32),
    /// Handle number n of this thread, made on first use.
    Own(u32),
    /// Made for this call and dropped after it.
    Fresh(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    pub k: K,
    /// f64 arguments as bits
    pub f: Vec<u64>,
    pub i: Vec<i64>,
    pub h: Href,
    #[serde(default)]
    pub sink: SinkPlan,
    #[serde(default)]
    pub amb: Option<Ambient>,
    /// If this call panics, that operation is performed while the panic unwinds.
    #[serde(default)]
    pub unwind: Option<u32>,
    /// Belongs to another property: performed, not compared.
    #[serde(default)]
    pub mute: bool,
}

impl Op {
    pub fn describe(&self) -> String {
        let f: Vec<String> = self.f.iter().map(|b| format!("{:?}", f64::from_bits(*b))).collect();
        let i: Vec<String> = self.i.iter().map(|x| x.to_string()).collect();
        let mut v = f;
        v.extend(i);
        let h = match self.h {
            Href::None => String::new(),
            h => format!(" on {:?}", h),
        };
        format!("{:?}({}){}", self.k, v.join(","), h)
    }
    /// What decides the operation's expected outcome.
    pub fn key(&self) -> (K, Vec<u64>, Vec<i64>, Option<u32>) {
        let h = match self.h {
            Href::None => None,
            Href::Shared(n) | Href::Own(n) | Href::Fresh(n) => Some(n),
        };
        (self.k, self.f.clone(), self.i.clone(), h)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Tag {
    Value,
    Absent,
    Error(u8),
    Panic,
    NoHandle,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Outcome {
    pub tag: Tag,
    pub v: Vec<u64>,
    pub text: Vec<u8>,
    pub steps: u64,
    /// Number of writes of a rendering.
    pub calls: u32,
}

impl Outcome {
    pub fn same(&self, o: &Outcome) -> bool {
        self.tag == o.tag && self.v == o.v && self.text == o.text
    }
    pub fn show(&self) -> String {
        let v: Vec<String> = self.v.iter().map(|b| format!("{:?}", f64::from_bits(*b))).collect();
        let t = String::from_utf8_lossy(&self.text);
        let mut s = format!("{:?}", self.tag);
        if !v.is_empty() {
            s += &format!(" [{}]", v.join(", "));
        }
        if !t.is_empty() {
            s += &format!(" {:?}", t);
        }
        s
    }
}

/// What happened at the sink of a rendering.
#[derive(Clone, Debug, Default)]
pub struct SinkLog {
    pub refused: bool,
    pub after_refusal: u32,
    pub panicked: bool,
    pub calls: u32,
    pub fired: [u32; 8],
}

pub enum Handle {
    Conv(EllipsoidConverter),
    Calc(SunAngleCalculator),
    Dead(Tag),
}

/// Shares a reference between simulated threads even if the type would not
/// allow it; whether it does is reported by `shareable`.
pub struct Force<T>(pub T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotShareable {
    const YES: bool = false;
}
impl<T> NotShareable for Probe<T> {}
impl<T: Sync + Send> Probe<T> {
    const YES: bool = true;
}
/// (calculator, converter) may be shared and sent between threads.
pub fn shareable() -> (bool, bool) {
    (Probe::<SunAngleCalculator>::YES, Probe::<EllipsoidConverter>::YES)
}

pub struct Ctx<'a> {
    pub specs: &'a [Spec],
    pub shared: &'a Force<Vec<Option<Box<Handle>>>>,
    pub own: BTreeMap<u32, Box<Handle>>,
    /// The operation performed last.
    pub last: u32,
    /// Performs operation number n from inside a sink.
    pub nested: Option<&'a (dyn Fn(u32) + 'a)>,
}

const NV: usize = 32;
pub struct Out {
    n: usize,
    v: [u64; NV],
    tag: Tag,
}
impl Out {
    fn new() -> Self {
        Out { n: 0, v: [0; NV], tag: Tag::Value }
    }
    #[inline(always)]
    fn p(&mut self, x: f64) {
        let b = if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() };
        self.v[self.n] = b;
        self.n += 1;
    }
    fn i(&mut self, x: i64) {
        self.p(x as f64)
    }
    fn v3(&mut self, v: &Vec3) {
        for x in v {
            self.p(*x)
        }
    }
    fn m(&mut self, m: &Mat3) {
        for r in m {
            self.v3(r)
        }
    }
    fn p2(&mut self, (a, b): (f64, f64)) {
        self.p(a);
        self.p(b)
    }
}

fn cal_err(e: &CalendarError) -> u8 {
    match e {
        CalendarError::BadYear => 1,
        CalendarError::BadMonth => 2,
        CalendarError::BadDay => 3,
        CalendarError::BadJulian => 4,
        CalendarError::BadFract => 5,
    }
}
fn ell_err(e: &EllipsoidError) -> u8 {
    match e {
        EllipsoidError::InvalidRadius => 11,
        EllipsoidError::InvalidFlattening => 12,
        EllipsoidError::BadEccentricity => 13,
        EllipsoidError::BadCoordinates => 14,
    }
}

fn params(f: &[f64], i: &[i64]) -> SunAngleParameters {
    SunAngleParameters {
        date: GregorianDate { year: i[0] as i32, month: i[1] as i32, day: i[2] as i32 },
        time: HMS { hour: i[3] as u8, minute: i[4] as u8, second: f[3] },
        position: Geodetic360 { lat: f[0], lon: f[1], height: f[2] },
    }
}

/// Calls the library to make a handle.
fn make(spec: &Spec) -> Handle {
    let r = catch_unwind(AssertUnwindSafe(|| match spec {
        Spec::Conv { a, f } => {
            let el = Ellipsoid { a: f64::from_bits(*a), f: f64::from_bits(*f) };
            match EllipsoidConverter::new(&el) {
                Ok(c) => Handle::Conv(c),
                Err(e) => Handle::Dead(Tag::Error(ell_err(&e))),
            }
        }
        Spec::Calc { f, i } => {
            let g = [f64::from_bits(f[0]), f64::from_bits(f[1]), f64::from_bits(f[2]), f64::from_bits(f[3])];
            Handle::Calc(SunAngleCalculator::new(&params(&g, i)))
        }
    }));
    match r {
        Ok(h) => h,
        Err(_) => Handle::Dead(Tag::Panic),
    }
}

fn boxed(spec: &Spec, on: bool) -> Box<Handle> {
    // the box itself belongs to the caller, not to the library
    if on {
        rt::enter();
    }
    let h = make(spec);
    if on {
        rt::leave();
    }
    Box::new(h)
}

pub fn make_shared(spec: &Spec) -> Box<Handle> {
    boxed(spec, true)
}

fn mat(a: &[f64]) -> Mat3 {
    [[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]]]
}

/// A digest of everything a value's derived `Debug` shows.
fn digest(x: &dyn std::fmt::Debug) -> i64 {
    use std::fmt::Write;
    struct H(u64);
    impl Write for H {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
            }
            Ok(())
        }
    }
    let mut h = H(0xcbf29ce484222325);
    let _ = write!(h, "{:?}", x);
    (h.0 >> 12) as i64
}

fn numeric(k: K, a: &[f64], i: &[i64], h: Option<&Handle>, o: &mut Out) {
    let date = |i: &[i64]| GregorianDate { year: i[0] as i32, month: i[1] as i32, day: i[2] as i32 };
    let tt = || TT((a[0], a[1]));
    match k {
        K::Anp => o.p(anp(a[0])),
        K::VecNorm => o.p([a[0], a[1], a[2]].norm()),
        K::VecNormalize => o.v3(&[a[0], a[1], a[2]].normalize()),
        K::VecScale => o.v3(&[a[0], a[1], a[2]].scale(a[3])),
        K::VecAdd => o.v3(&[a[0], a[1], a[2]].add([a[3], a[4], a[5]])),
        K::VecSub => o.v3(&[a[0], a[1], a[2]].sub([a[3], a[4], a[5]])),
        K::VecNeg => o.v3(&[a[0], a[1], a[2]].neg()),
        K::VecDot => o.p([a[0], a[1], a[2]].dot([a[3], a[4], a[5]])),
        K::VecAngle => o.p([a[0], a[1], a[2]].angle([a[3], a[4], a[5]])),
        K::Prim => o.p(match i[0] {
            0 => sqrt(a[0]),
            1 => sq(a[0]),
            2 => sin(a[0]),
            3 => cos(a[0]),
            4 => tan(a[0]),
            5 => acos(a[0]),
            6 => asin(a[0]),
            7 => atan(a[0]),
            8 => atan2(a[0], a[1]),
            9 => abs(a[0]),
            10 => floor(a[0]),
            11 => round(a[0]),
            12 => return o.m(&Mat3::zero()),
            _ => return o.m(&Mat3::identity()),
        }),
        K::MatRotation => o.m(&Mat3::rotation(i[0] as usize, a[0])),
        K::MatCompose => o.m(&mat(&a[0..9]).compose(&mat(&a[9..18]))),
        K::MatApply => o.v3(&mat(&a[0..9]).apply([a[9], a[10], a[11]])),
        K::MatTranspose => o.m(&mat(&a[0..9]).transpose()),

        K::TtFromUt1 => {
            let t = TT::from_ut1(UT1((a[0], a[1])), a[2]);
            o.p2(t.0);
            o.p(t.total())
        }
        K::TtFromTai => {
            let t: TT = TAI((a[0], a[1])).into();
            o.p2(t.0);
            o.p(TAI((a[0], a[1])).total())
        }
        K::TaiFromUtc => {
            let t = TAI::from_utc_delta_at(UTC((a[0], a[1])), a[2]);
            o.p2(t.0);
            o.p(UTC((a[0], a[1])).total())
        }
        K::TdbFromTt => o.p2(TDB::from_tt(tt(), a[2]).0),
        K::Ut1FromTt => {
            let u = UT1::from_tt(tt(), a[2]);
            o.p2(u.0);
            o.p(u.total())
        }
        K::TimeChain => {
            let tai = TAI::from_utc_delta_at(UTC((a[0], a[1])), a[2]);
            let tt: TT = tai.into();
            let ut1 = UT1::from_tt(tt, a[3]);
            let tdb = TDB::from_tt(tt, a[4]);
            let tt2 = TT::from_ut1(ut1, a[3]);
            o.p2(tai.0);
            o.p2(tt.0);
            o.p2(ut1.0);
            o.p2(tdb.0);
            o.p2(tt2.0);
        }

        K::Epv => {
            let e: EarthPosVel = TDB((a[0], a[1])).into();
            o.v3(&e.heliocentric.p);
            o.v3(&e.heliocentric.v);
            o.v3(&e.barycentric.p);
            o.v3(&e.barycentric.v);
            o.p(if e.warning.is_some() { 1.0 } else { 0.0 })
        }
        K::Era => o.p(earth::rotation_angle(UT1((a[0], a[1])))),
        K::Pom => o.m(&earth::polar_motion_matrix(a[0], a[1], a[2])),

        K::C2T => o.m(&frames::celestial_to_terrestrial(tt(), UT1((a[2], a[3])), a[4], a[5])),
        K::C2I => o.m(&frames::celestial_to_intermediate(tt())),
        K::Pn => o.m(&frames::precession_nutation(tt())),
        K::PnInto => {
            let p: PrecessionNutation = tt().into();
            o.p(p.dpsi);
            o.i(digest(&p))
        }
        K::PnWith => {
            let p = PrecessionNutation::from_tt_with_nutation(tt(), a[2], a[3]);
            o.p(p.dpsi);
            o.i(digest(&p))
        }
        K::Nut => o.p2(frames::nutation(tt())),
        K::PrecRate => o.p2(frames::precession_rate(tt())),
        K::Obl => o.p(frames::mean_obliquity(tt())),
        K::BiasPrec => {
            let (x, y, z) = frames::bias_and_precession(tt());
            o.m(&x);
            o.m(&y);
            o.m(&z)
        }
        K::Bias => {
            let (x, y, z) = frames::frame_bias();
            o.v3(&[x, y, z])
        }
        K::NutMat => o.m(&frames::nutation_matrix(a[0], a[1], a[2])),
        K::C2IBpn => o.m(&frames::celestial_to_intermediate_with_bpn(tt(), &mat(&a[2..11]))),
        K::C2IBpnXy => o.m(&frames::celestial_to_intermediate_with_bpn_and_xy(tt(), a[2], a[3])),
        K::C2IXys => o.m(&frames::celestial_to_intermediate_from_xys(a[0], a[1], a[2])),
        K::XyBpn => o.p2(frames::xy_from_bpn(&mat(a))),
        K::C2TCio => o.m(&frames::celestial_to_terrestrial_from_cio_components(&mat(&a[0..9]), a[9], &mat(&a[10..19]))),

        K::Cio => o.p(locator::cio(tt(), a[2], a[3])),
        K::Fund => {
            let t = a[0];
            o.p(match i[0] {
                0 => fundargs::l03(t),
                1 => fundargs::lp03(t),
                2 => fundargs::f03(t),
                3 => fundargs::d03(t),
                4 => fundargs::om03(t),
                5 => fundargs::ve03(t),
                6 => fundargs::e03(t),
                _ => fundargs::pa03(t),
            })
        }

        K::DateNew => match GregorianDate::new(i[0] as i32, i[1] as i32, i[2] as i32) {
            Ok(d) => {
                o.i(d.year as i64);
                o.i(d.month as i64);
                o.i(d.day as i64)
            }
            Err(e) => o.tag = Tag::Error(cal_err(&e)),
        },
        K::DateToJd => o.p2(date(i).to_julian()),
        K::DateFromJd => match GregorianDate::from_julian(a[0], a[1]) {
            Ok((d, f)) => {
                o.i(d.year as i64);
                o.i(d.month as i64);
                o.i(d.day as i64);
                o.p(f)
            }
            Err(e) => o.tag = Tag::Error(cal_err(&e)),
        },
        K::HmsFrom => match HMS::from_fraction_of_day(a[0]) {
            Ok(h) => {
                o.i(h.hour as i64);
                o.i(h.minute as i64);
                o.p(h.second)
            }
            Err(e) => o.tag = Tag::Error(cal_err(&e)),
        },
        K::HmsTo => o.p(HMS::new(i[0] as u8, i[1] as u8, a[0]).to_fraction_of_day()),
        K::DhmsFrom => match GregorianDateHMS::from_julian(a[0], a[1]) {
            Ok(d) => {
                o.i(d.date.year as i64);
                o.i(d.date.month as i64);
                o.i(d.date.day as i64);
                o.i(d.hms.hour as i64);
                o.i(d.hms.minute as i64);
                o.p(d.hms.second)
            }
            Err(e) => o.tag = Tag::Error(cal_err(&e)),
        },
        K::DhmsTo => o.p2(
            GregorianDateHMS { date: date(i), hms: HMS { hour: i[3] as u8, minute: i[4] as u8, second: a[0] } }.to_julian(),
        ),
        K::Dat => match date(i).delta_at(a[0]) {
            Ok(Some(x)) => o.p(x),
            Ok(None) => o.tag = Tag::Absent,
            Err(DeltaAtError::BadFract) => o.tag = Tag::Error(21),
        },

        K::MkConv => match EllipsoidConverter::new(&Ellipsoid { a: a[0], f: a[1] }) {
            Ok(c) => {
                o.p(c.ellipsoid().a);
                o.p(c.ellipsoid().f)
            }
            Err(e) => o.tag = Tag::Error(ell_err(&e)),
        },
        K::ConvInv => match h {
            Some(Handle::Conv(c)) => {
                let g = c.geocentric_to_geodetic(&[a[0], a[1], a[2]]);
                o.v3(&[g.elong, g.phi, g.height])
            }
            Some(Handle::Dead(t)) => o.tag = *t,
            _ => o.tag = Tag::NoHandle,
        },
        K::ConvFwd => match h {
            Some(Handle::Conv(c)) => match c.geodetic_to_geocentric(&Geodetic { elong: a[0], phi: a[1], height: a[2] }) {
                Ok(v) => o.v3(&v),
                Err(e) => o.tag = Tag::Error(ell_err(&e)),
            },
            Some(Handle::Dead(t)) => o.tag = *t,
            _ => o.tag = Tag::NoHandle,
        },
        K::ConvEl => match h {
            Some(Handle::Conv(c)) => {
                o.p(c.ellipsoid().a);
                o.p(c.ellipsoid().f);
                o.p(if *c.ellipsoid() == WGS84 { 1.0 } else { 0.0 })
            }
            Some(Handle::Dead(t)) => o.tag = *t,
            _ => o.tag = Tag::NoHandle,
        },
        K::GdTo360 => {
            let g: Geodetic360 = Geodetic { elong: a[0], phi: a[1], height: a[2] }.into();
            o.v3(&[g.lon, g.lat, g.height]);
            let g: Geodetic360 = (&Geodetic { elong: a[0], phi: a[1], height: a[2] }).into();
            o.v3(&[g.lon, g.lat, g.height])
        }
        K::Gd360To => {
            let g: Geodetic = Geodetic360 { lon: a[0], lat: a[1], height: a[2] }.into();
            o.v3(&[g.elong, g.phi, g.height]);
            let g: Geodetic = (&Geodetic360 { lon: a[0], lat: a[1], height: a[2] }).into();
            o.v3(&[g.elong, g.phi, g.height])
        }
        K::Zenith => o.v3(&Geodetic { elong: a[0], phi: a[1], height: a[2] }.zenith()),

        K::MkCalc => {
            let c = SunAngleCalculator::new(&params(a, i));
            std::hint::black_box(&c);
            o.p(1.0)
        }
        K::DefParams => {
            let d = SunAngleParameters::default();
            o.i(digest(&d))
        }
        K::CalcCompute => match h {
            Some(Handle::Calc(c)) => {
                let r = c.compute(a[0]);
                o.p(r.jd0);
                o.p(r.jd1);
                o.p(r.delta_s);
                o.v3(&r.p);
                o.p2(r.utc.0);
                o.p(r.dat);
                o.p2(r.tai.0);
                o.p2(r.tt.0);
                o.p2(r.ut1.0);
                o.p(r.era);
                o.v3(&r.earth);
                o.v3(&r.sun_e);
                o.p(r.sza)
            }
            Some(Handle::Dead(t)) => o.tag = *t,
            _ => o.tag = Tag::NoHandle,
        },
        K::DropHandle => (),
        _ => unreachable!(),
    }
}

enum Rendered {
    Ok,
    Failed,
}

fn to_sink(x: &dyn Text, s: &mut Sink) -> Rendered {
    let x = Styled(x, s.plan.style);
    let ok = match s.plan.wrap {
        Wrap::Fmt => {
            use std::fmt::Write;
            x.write(&mut |a| s.write_fmt(a).is_ok())
        }
        Wrap::Direct => {
            use std::io::Write;
            x.write(&mut |a| s.write_fmt(a).and_then(|_| s.flush()).is_ok())
        }
        Wrap::Buf(c) => {
            use std::io::Write;
            let mut w = rt::outside(|| std::io::BufWriter::with_capacity(c as usize, &mut *s));
            let r = catch_unwind(AssertUnwindSafe(|| x.write(&mut |a| w.write_fmt(a).and_then(|_| w.flush()).is_ok())));
            // what is still buffered must not reach the device later
            let _ = w.into_parts();
            r.unwrap_or_else(|e| resume_unwind(e))
        }
        Wrap::Line(c) => {
            use std::io::Write;
            let mut w = rt::outside(|| std::io::LineWriter::with_capacity(c as usize, &mut *s));
            let r = catch_unwind(AssertUnwindSafe(|| x.write(&mut |a| w.write_fmt(a).and_then(|_| w.flush()).is_ok())));
            if !matches!(r, Ok(true)) {
                std::mem::forget(w);
            }
            r.unwrap_or_else(|e| resume_unwind(e))
        }
    };
    if ok {
        Rendered::Ok
    } else {
        Rendered::Failed
    }
}

#[derive(Debug)]
struct Dbg(PrecessionNutation);
impl Display for Dbg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(&self.0, f)
    }
}

fn render(k: K, a: &[f64], i: &[i64], h: Option<&Handle>, spec: Option<&Spec>, s: &mut Sink) -> Rendered {
    let date = |i: &[i64]| GregorianDate { year: i[0] as i32, month: i[1] as i32, day: i[2] as i32 };
    match k {
        K::RDate => to_sink(&date(i), s),
        K::RHms => to_sink(&HMS { hour: i[0] as u8, minute: i[1] as u8, second: a[0] }, s),
        K::RDhms => to_sink(
            &GregorianDateHMS { date: date(i), hms: HMS { hour: i[3] as u8, minute: i[4] as u8, second: a[0] } },
            s,
        ),
        K::RGd => to_sink(&Geodetic { elong: a[0], phi: a[1], height: a[2] }, s),
        K::RGd360 => to_sink(&Geodetic360 { lon: a[0], lat: a[1], height: a[2] }, s),
        K::RBundle => {
            let parameters = params(a, i);
            let c = SunAngleCalculator::new(&parameters);
            let result = c.compute(a[4]);
            let b = SunAngleResultBundle { parameters: &parameters, result: &result };
            to_sink(&b, s)
        }
        K::RErr => match i[0] {
            0 => to_sink(&CalendarError::BadYear, s),
            1 => to_sink(&CalendarError::BadMonth, s),
            2 => to_sink(&CalendarError::BadDay, s),
            3 => to_sink(&CalendarError::BadJulian, s),
            4 => to_sink(&CalendarError::BadFract, s),
            5 => to_sink(&DeltaAtError::BadFract, s),
            6 => to_sink(&EllipsoidError::InvalidRadius, s),
            7 => to_sink(&EllipsoidError::InvalidFlattening, s),
            8 => to_sink(&EllipsoidError::BadEccentricity, s),
            _ => to_sink(&EllipsoidError::BadCoordinates, s),
        },
        K::PnDebug => {
            let p: PrecessionNutation = TT((a[0], a[1])).into();
            to_sink(&Dbg(p), s)
        }
        K::RBundleH => match (h, spec) {
            (Some(Handle::Calc(c)), Some(Spec::Calc { f, i })) => {
                let g = [f64::from_bits(f[0]), f64::from_bits(f[1]), f64::from_bits(f[2]), f64::from_bits(f[3])];
                let parameters = params(&g, i);
                let result = c.compute(a[0]);
                to_sink(&SunAngleResultBundle { parameters: &parameters, result: &result }, s)
            }
            _ => std::panic::panic_any(0xdeadu32),
        },
        K::RResult => {
            let parameters = params(a, i);
            let result = SunAngleResult {
                jd0: a[5],
                jd1: a[6],
                delta_s: a[4],
                p: [a[7], a[8], a[9]],
                utc: UTC((a[5], a[6])),
                dat: a[4],
                tai: TAI((a[5], a[8])),
                tt: TT((a[6], a[7])),
                ut1: UT1((a[5], a[9])),
                era: a[10],
                earth: [a[9], a[10], a[7]],
                sun_e: [a[8], a[9], a[4]],
                sza: a[10],
            };
            to_sink(&SunAngleResultBundle { parameters: &parameters, result: &result }, s)
        }
        _ => unreachable!(),
    }
}

pub struct Done {
    pub out: Outcome,
    pub sink: Option<SinkLog>,
}

/// Steps allowed for making or dropping a handle.
pub const HANDLE_LIMIT: u64 = 3_000_000;

/// Drops a handle as a simulated call; the library may have come to do
/// something there.  False: it panicked.
fn drop_handle(h: Box<Handle>, id: u32) -> bool {
    let saved = rt::begin_op(id, HANDLE_LIMIT);
    rt::enter();
    let h = *h;
    let ok = catch_unwind(AssertUnwindSafe(|| drop(h))).is_ok();
    rt::leave();
    rt::end_op(saved);
    ok
}

impl Drop for Ctx<'_> {
    fn drop(&mut self) {
        while let Some((_, h)) = self.own.pop_first() {
            drop_handle(h, self.last);
        }
    }
}

/// What a caller's destructor does while a panic passes it.
struct Passed<'a> {
    op: Option<u32>,
    cb: Option<&'a (dyn Fn(u32) + 'a)>,
}
impl Drop for Passed<'_> {
    fn drop(&mut self) {
        if let (Some(n), Some(cb)) = (self.op, self.cb) {
            if std::thread::panicking() {
                rt::outside(|| cb(n));
            }
        }
    }
}

/// Calls f from a stack frame that lies 16 bytes lower for every one in n.
fn deeper(n: u32, f: &mut dyn FnMut()) {
    #[inline(never)]
    fn by<const N: usize>(n: u32, f: &mut dyn FnMut()) {
        let a = [std::mem::MaybeUninit::<u8>::uninit(); N];
        std::hint::black_box(&a);
        deeper(n, f);
        std::hint::black_box(&a);
    }
    let rest = n & n.wrapping_sub(1);
    match n ^ rest {
        0 => f(),
        1 => by::<16>(rest, f),
        2 => by::<32>(rest, f),
        4 => by::<64>(rest, f),
        8 => by::<128>(rest, f),
        16 => by::<256>(rest, f),
        32 => by::<512>(rest, f),
        64 => by::<1024>(rest, f),
        _ => by::<2048>(rest, f),
    }
}

/// Performs one operation.
pub fn exec(op: &Op, id: u32, ctx: &mut Ctx, limit: u64) -> Done {
    match op.amb.as_ref().map_or(0, |a| a.place) {
        0 => exec_here(op, id, ctx, limit),
        n => {
            let mut d = None;
            deeper((n >> 8) as u32 & 255, &mut || d = Some(exec_here(op, id, ctx, limit)));
            d.unwrap()
        }
    }
}
fn exec_here(op: &Op, id: u32, ctx: &mut Ctx, limit: u64) -> Done {
    ctx.last = id;
    let mut f = [0.0f64; 20];
    for (d, s) in f.iter_mut().zip(op.f.iter()) {
        *d = f64::from_bits(*s);
    }
    let (nf, ni) = op.k.arity();
    let a = &f[..nf];
    let mut iv = [0i64; 8];
    for (d, s) in iv.iter_mut().zip(op.i.iter()) {
        *d = *s;
    }
    let i = &iv[..ni];
    if let Some(am) = &op.amb {
        rt::set_ambient(am);
        if let Some(b) = am.paint {
            rt::paint_stack(b);
        }
    }

    // find or make the handle
    let mut fresh: Option<Box<Handle>> = None;
    if let Href::Own(n) = op.h {
        if op.k == K::DropHandle {
            let ok = ctx.own.remove(&n).is_none_or(|h| drop_handle(h, id));
            return Done { out: Outcome { tag: if ok { Tag::Value } else { Tag::Panic }, v: vec![], text: vec![], steps: 0, calls: 0 }, sink: None };
        }
        if !ctx.own.contains_key(&n) {
            let saved = rt::begin_op(id, HANDLE_LIMIT);
            let h = boxed(&ctx.specs[n as usize], true);
            rt::end_op(saved);
            ctx.own.insert(n, h);
        }
    }
    if let Href::Fresh(n) = op.h {
        let saved = rt::begin_op(id, HANDLE_LIMIT);
        fresh = Some(boxed(&ctx.specs[n as usize], true));
        rt::end_op(saved);
    }
    let h: Option<&Handle> = match op.h {
        Href::None => None,
        Href::Shared(n) => ctx.shared.0[n as usize].as_deref(),
        Href::Own(n) => ctx.own.get(&n).map(|b| &**b),
        Href::Fresh(_) => fresh.as_deref(),
    };

    let spec = match op.h {
        Href::None => None,
        Href::Shared(n) | Href::Own(n) | Href::Fresh(n) => ctx.specs.get(n as usize),
    };

    if op.k.is_render() {
        let cb = ctx.nested;
        let mut nest = |n: u32| {
            if let Some(cb) = cb {
                cb(n)
            }
        };
        let mut sink = Sink::new(&op.sink, &mut nest);
        let saved = rt::begin_op(id, limit);
        rt::enter();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _passed = Passed { op: op.unwind, cb };
            render(op.k, a, i, h, spec, &mut sink)
        }));
        let tag = match &r {
            Ok(Rendered::Ok) => Tag::Value,
            Ok(Rendered::Failed) => Tag::Error(31),
            Err(_) => Tag::Panic,
        };
        drop(r);
        rt::leave();
        let steps = rt::end_op(saved);
        let log = SinkLog {
            refused: sink.refused,
            after_refusal: sink.after_refusal,
            panicked: sink.panicked,
            calls: sink.calls,
            fired: sink.fired,
        };
        let text = std::mem::take(&mut sink.out);
        let calls = log.calls;
        let dropped = fresh.is_none_or(|h| drop_handle(h, id));
        let tag = if dropped { tag } else { Tag::Panic };
        return Done { out: Outcome { tag, v: vec![], text, steps, calls }, sink: Some(log) };
    }

    let mut o = Out::new();
    let saved = rt::begin_op(id, limit);
    rt::enter();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _passed = Passed { op: op.unwind, cb: ctx.nested };
        numeric(op.k, a, i, h, &mut o)
    }));
    let panicked = r.is_err();
    drop(r);
    rt::leave();
    let steps = rt::end_op(saved);
    if panicked {
        o.n = 0;
        o.tag = Tag::Panic;
    }
    if !fresh.is_none_or(|h| drop_handle(h, id)) {
        o.n = 0;
        o.tag = Tag::Panic;
    }
    Done { out: Outcome { tag: o.tag, v: o.v[..o.n].to_vec(), text: vec![], steps, calls: 0 }, sink: None }
}
