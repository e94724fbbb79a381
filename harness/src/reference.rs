//! Independent SGP4/SDP4 reference model.
//!
//! Structured after the published "Revisiting Spacetrack Report #3" routines
//! (initl / sgp4init / dscom / dsinit / dspace / dpper / sgp4), with mutable scalar
//! state and the published variable names, i.e. deliberately *not* after the crate under
//! test. It shares no code, constants or tables with /repo.
#![allow(clippy::all)]
#![allow(non_snake_case)]

pub const PI: f64 = std::f64::consts::PI;
pub const TWOPI: f64 = 2.0 * PI;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Grav {
    pub re: f64,
    pub xke: f64,
    pub j2: f64,
    pub j3: f64,
    pub j4: f64,
}

/// xke follows from the defining mu and equatorial radius
fn grav_from_mu(mu: f64, re: f64, j2: f64, j3: f64, j4: f64) -> Grav {
    Grav { re, xke: 60.0 / (re * re * re / mu).sqrt(), j2, j3, j4 }
}
pub fn wgs72() -> Grav {
    grav_from_mu(398600.8, 6378.135, 0.001082616, -0.00000253881, -0.00000165597)
}
pub fn wgs84() -> Grav {
    grav_from_mu(398600.5, 6378.137, 0.00108262998905, -0.00000253215306, -0.00000161098761)
}
pub fn wgs72old() -> Grav {
    Grav { re: 6378.135, xke: 0.0743669161, j2: 0.001082616, j3: -0.00000253881, j4: -0.00000165597 }
}

/// Brouwer (un-Kozai'd) epoch elements, rad and rad/min
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct El {
    pub incl: f64,
    pub node: f64,
    pub ecc: f64,
    pub argp: f64,
    pub ma: f64,
    pub no: f64,
}

/// Un-Kozai the mean motion. None: the result is not positive (or the input was not).
pub fn unkozai(g: &Grav, incl: f64, ecc: f64, no_kozai: f64) -> f64 {
    let x2o3 = 2.0 / 3.0;
    let eccsq = ecc * ecc;
    let omeosq = 1.0 - eccsq;
    let rteosq = omeosq.sqrt();
    let cosio = incl.cos();
    let cosio2 = cosio * cosio;
    let ak = (g.xke / no_kozai).powf(x2o3);
    let d1 = 0.75 * g.j2 * (3.0 * cosio2 - 1.0) / (rteosq * omeosq);
    let mut del = d1 / (ak * ak);
    let adel = ak * (1.0 - del * del - del * (1.0 / 3.0 + 134.0 * del * del / 81.0));
    del = d1 / (adel * adel);
    no_kozai / (1.0 + del)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Near,
    Deep,
    OneDay,
    HalfDay,
}

/// quantities that decide the outcome
#[derive(Clone, Copy, Debug)]
pub struct Trace {
    pub em: f64,
    pub ep: f64,
    pub el2: f64,
    pub argp: f64,
    pub ma: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Outcome {
    Ok { r: [f64; 3], v: [f64; 3] },
    /// mean eccentricity out of range (Spacetrack error 1)
    Ecc(f64),
    /// perturbed eccentricity out of range (error 3)
    PertEcc(f64),
    /// semi-latus rectum negative (error 4)
    SemiLatus,
}

impl Outcome {
    pub fn class(&self) -> u8 {
        match self {
            Outcome::Ok { .. } => 0,
            Outcome::Ecc(_) => 1,
            Outcome::PertEcc(_) => 2,
            Outcome::SemiLatus => 3,
        }
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct Body {
    e2: f64,
    e3: f64,
    i2: f64,
    i3: f64,
    l2: f64,
    l3: f64,
    l4: f64,
    gh2: f64,
    gh3: f64,
    gh4: f64,
    h2: f64,
    h3: f64,
}

#[derive(Clone, Debug)]
pub struct Sat {
    g: Grav,
    el: El,
    bstar: f64,
    pub kind: Kind,
    /// low perigee: the truncated drag series is used
    pub isimp: bool,
    pub perige: f64,
    // drag and secular
    cc1: f64,
    cc4: f64,
    cc5: f64,
    d2: f64,
    d3: f64,
    d4: f64,
    t2cof: f64,
    t3cof: f64,
    t4cof: f64,
    t5cof: f64,
    delmo: f64,
    eta: f64,
    argpdot: f64,
    nodedot: f64,
    mdot: f64,
    nodecf: f64,
    omgcof: f64,
    xmcof: f64,
    sinmao: f64,
    con41: f64,
    x1mth2: f64,
    x7thm1: f64,
    aycof: f64,
    xlcof: f64,
    // deep space
    sun: Body,
    moon: Body,
    zmos: f64,
    zmol: f64,
    dedt: f64,
    didt: f64,
    dmdt: f64,
    dnodt: f64,
    domdt: f64,
    gsto: f64,
    xfact: f64,
    xlamo: f64,
    del1: f64,
    del2: f64,
    del3: f64,
    d22: [f64; 10],
    pub ao: f64,
    /// simulated rounding error of 1 + cos I (see numeric.rs), normally 0
    noise: f64,
    /// simulated residue of the iteration for Kepler's equation, which stops below 1e-12; normally 0
    pub residue: f64,
    /// simulated rounding of mean anomaly, perigee, node, semi-major axis and eccentricity at the time
    /// asked for, and of the drag term they have in common, relative to the terms they are summed from; normally 0
    pub shift: [f64; 6],
}

fn xlcof_of(j3oj2: f64, sini: f64, cosi: f64, noise: f64) -> f64 {
    let temp4 = 1.5e-12;
    let opc = 1.0 + cosi + noise;
    let den = if opc.abs() > temp4 { opc } else { temp4 };
    -0.25 * j3oj2 * sini * (3.0 + 5.0 * cosi) / den
}

/// Third-body terms for one body (the loop body of `dscom` plus the secular part of `dsinit`)
struct Third {
    b: Body,
    // secular rates: se, si, sl, sgh (without node part), sh (before / sin i)
    se: f64,
    si: f64,
    sl: f64,
    sgh: f64,
    sh: f64,
}

fn dscom_body(
    el: &El, zcosg: f64, zsing: f64, zcosi: f64, zsini: f64, zcosh: f64, zsinh: f64, cc: f64,
    ze: f64, zn: f64,
) -> Third {
    let em = el.ecc;
    let emsq = em * em;
    let betasq = 1.0 - emsq;
    let rtemsq = betasq.sqrt();
    let (sinim, cosim) = (el.incl.sin(), el.incl.cos());
    let (sinomm, cosomm) = (el.argp.sin(), el.argp.cos());
    let xnoi = 1.0 / el.no;

    let a1 = zcosg * zcosh + zsing * zcosi * zsinh;
    let a3 = -zsing * zcosh + zcosg * zcosi * zsinh;
    let a7 = -zcosg * zsinh + zsing * zcosi * zcosh;
    let a8 = zsing * zsini;
    let a9 = zsing * zsinh + zcosg * zcosi * zcosh;
    let a10 = zcosg * zsini;
    let a2 = cosim * a7 + sinim * a8;
    let a4 = cosim * a9 + sinim * a10;
    let a5 = -sinim * a7 + cosim * a8;
    let a6 = -sinim * a9 + cosim * a10;

    let x1 = a1 * cosomm + a2 * sinomm;
    let x2 = a3 * cosomm + a4 * sinomm;
    let x3 = -a1 * sinomm + a2 * cosomm;
    let x4 = -a3 * sinomm + a4 * cosomm;
    let x5 = a5 * sinomm;
    let x6 = a6 * sinomm;
    let x7 = a5 * cosomm;
    let x8 = a6 * cosomm;

    let z31 = 12.0 * x1 * x1 - 3.0 * x3 * x3;
    let z32 = 24.0 * x1 * x2 - 6.0 * x3 * x4;
    let z33 = 12.0 * x2 * x2 - 3.0 * x4 * x4;
    let mut z1 = 3.0 * (a1 * a1 + a2 * a2) + z31 * emsq;
    let mut z2 = 6.0 * (a1 * a3 + a2 * a4) + z32 * emsq;
    let mut z3 = 3.0 * (a3 * a3 + a4 * a4) + z33 * emsq;
    let z11 = -6.0 * a1 * a5 + emsq * (-24.0 * x1 * x7 - 6.0 * x3 * x5);
    let z12 = -6.0 * (a1 * a6 + a3 * a5)
        + emsq * (-24.0 * (x2 * x7 + x1 * x8) - 6.0 * (x3 * x6 + x4 * x5));
    let z13 = -6.0 * a3 * a6 + emsq * (-24.0 * x2 * x8 - 6.0 * x4 * x6);
    let z21 = 6.0 * a2 * a5 + emsq * (24.0 * x1 * x5 - 6.0 * x3 * x7);
    let z22 = 6.0 * (a4 * a5 + a2 * a6)
        + emsq * (24.0 * (x2 * x5 + x1 * x6) - 6.0 * (x4 * x7 + x3 * x8));
    let z23 = 6.0 * a4 * a6 + emsq * (24.0 * x2 * x6 - 6.0 * x4 * x8);
    z1 = z1 + z1 + betasq * z31;
    z2 = z2 + z2 + betasq * z32;
    z3 = z3 + z3 + betasq * z33;
    let s3 = cc * xnoi;
    let s2 = -0.5 * s3 / rtemsq;
    let s4 = s3 * rtemsq;
    let s1 = -15.0 * em * s4;
    let s5 = x1 * x3 + x2 * x4;
    let s6 = x2 * x3 + x1 * x4;
    let s7 = x2 * x4 - x1 * x3;

    Third {
        b: Body {
            e2: 2.0 * s1 * s6,
            e3: 2.0 * s1 * s7,
            i2: 2.0 * s2 * z12,
            i3: 2.0 * s2 * (z13 - z11),
            l2: -2.0 * s3 * z2,
            l3: -2.0 * s3 * (z3 - z1),
            l4: -2.0 * s3 * (-21.0 - 9.0 * emsq) * ze,
            gh2: 2.0 * s4 * z32,
            gh3: 2.0 * s4 * (z33 - z31),
            gh4: -18.0 * s4 * ze,
            h2: -2.0 * s2 * z22,
            h3: -2.0 * s2 * (z23 - z21),
        },
        se: s1 * zn * s5,
        si: s2 * zn * (z11 + z13),
        sl: -zn * s3 * (z1 + z3 - 14.0 - 6.0 * emsq),
        sgh: s4 * zn * (z31 + z33 - 6.0),
        sh: -zn * s2 * (z21 + z23),
    }
}

const ZES: f64 = 0.01675;
const ZEL: f64 = 0.05490;
const ZNS: f64 = 1.19459e-5;
const ZNL: f64 = 1.5835218e-4;

/// `years`: Julian years since J2000; `gsto`: sidereal time at epoch
pub fn sgp4init(g: &Grav, el: &El, bstar: f64, years: f64, gsto: f64, noise: f64) -> Sat {
    let x2o3 = 2.0 / 3.0;
    let ss = 78.0 / g.re + 1.0;
    let qzms2t = ((120.0 - 78.0) / g.re).powi(4);
    let j3oj2 = g.j3 / g.j2;
    let ecco = el.ecc;
    let no = el.no;

    let eccsq = ecco * ecco;
    let omeosq = 1.0 - eccsq;
    let rteosq = omeosq.sqrt();
    let cosio = el.incl.cos();
    let sinio = el.incl.sin();
    let cosio2 = cosio * cosio;
    let ao = (g.xke / no).powf(x2o3);
    let po = ao * omeosq;
    let con42 = 1.0 - 5.0 * cosio2;
    let con41 = -con42 - cosio2 - cosio2;
    let posq = po * po;
    let rp = ao * (1.0 - ecco);

    let isimp_alt = rp < 220.0 / g.re + 1.0;
    let mut sfour = ss;
    let mut qzms24 = qzms2t;
    let perige = (rp - 1.0) * g.re;
    if perige < 156.0 {
        sfour = perige - 78.0;
        if perige < 98.0 {
            sfour = 20.0;
        }
        qzms24 = ((120.0 - sfour) / g.re).powi(4);
        sfour = sfour / g.re + 1.0;
    }
    let pinvsq = 1.0 / posq;
    let tsi = 1.0 / (ao - sfour);
    let eta = ao * ecco * tsi;
    let etasq = eta * eta;
    let eeta = ecco * eta;
    let psisq = (1.0 - etasq).abs();
    let coef = qzms24 * tsi.powi(4);
    let coef1 = coef / psisq.powf(3.5);
    let cc2 = coef1
        * no
        * (ao * (1.0 + 1.5 * etasq + eeta * (4.0 + etasq))
            + 0.375 * g.j2 * tsi / psisq * con41 * (8.0 + 3.0 * etasq * (8.0 + etasq)));
    let cc1 = bstar * cc2;
    let mut cc3 = 0.0;
    if ecco > 1.0e-4 {
        cc3 = -2.0 * coef * tsi * j3oj2 * no * sinio / ecco;
    }
    let x1mth2 = 1.0 - cosio2;
    let cc4 = 2.0
        * no
        * coef1
        * ao
        * omeosq
        * (eta * (2.0 + 0.5 * etasq) + ecco * (0.5 + 2.0 * etasq)
            - g.j2 * tsi / (ao * psisq)
                * (-3.0 * con41 * (1.0 - 2.0 * eeta + etasq * (1.5 - 0.5 * eeta))
                    + 0.75 * x1mth2 * (2.0 * etasq - eeta * (1.0 + etasq)) * (2.0 * el.argp).cos()));
    let cc5 = 2.0 * coef1 * ao * omeosq * (1.0 + 2.75 * (etasq + eeta) + eeta * etasq);
    let cosio4 = cosio2 * cosio2;
    let temp1 = 1.5 * g.j2 * pinvsq * no;
    let temp2 = 0.5 * temp1 * g.j2 * pinvsq;
    let temp3 = -0.46875 * g.j4 * pinvsq * pinvsq * no;
    let mdot = no
        + 0.5 * temp1 * rteosq * con41
        + 0.0625 * temp2 * rteosq * (13.0 - 78.0 * cosio2 + 137.0 * cosio4);
    let argpdot = -0.5 * temp1 * con42
        + 0.0625 * temp2 * (7.0 - 114.0 * cosio2 + 395.0 * cosio4)
        + temp3 * (3.0 - 36.0 * cosio2 + 49.0 * cosio4);
    let xhdot1 = -temp1 * cosio;
    let nodedot =
        xhdot1 + (0.5 * temp2 * (4.0 - 19.0 * cosio2) + 2.0 * temp3 * (3.0 - 7.0 * cosio2)) * cosio;
    let omgcof = bstar * cc3 * el.argp.cos();
    let mut xmcof = 0.0;
    if ecco > 1.0e-4 {
        xmcof = -x2o3 * coef * bstar / eeta;
    }
    let nodecf = 3.5 * omeosq * xhdot1 * cc1;
    let t2cof = 1.5 * cc1;

    let deep = !(no > TWOPI / 225.0);
    let mut s = Sat {
        g: *g,
        el: *el,
        bstar,
        kind: if deep { Kind::Deep } else { Kind::Near },
        isimp: isimp_alt || deep,
        perige,
        cc1,
        cc4,
        cc5,
        d2: 0.0,
        d3: 0.0,
        d4: 0.0,
        t2cof,
        t3cof: 0.0,
        t4cof: 0.0,
        t5cof: 0.0,
        delmo: (1.0 + eta * el.ma.cos()).powi(3),
        eta,
        argpdot,
        nodedot,
        mdot,
        nodecf,
        omgcof,
        xmcof,
        sinmao: el.ma.sin(),
        con41,
        x1mth2,
        x7thm1: 7.0 * cosio2 - 1.0,
        aycof: -0.5 * j3oj2 * sinio,
        xlcof: xlcof_of(j3oj2, sinio, cosio, noise),
        sun: Body::default(),
        moon: Body::default(),
        zmos: 0.0,
        zmol: 0.0,
        dedt: 0.0,
        didt: 0.0,
        dmdt: 0.0,
        dnodt: 0.0,
        domdt: 0.0,
        gsto,
        xfact: 0.0,
        xlamo: 0.0,
        del1: 0.0,
        del2: 0.0,
        del3: 0.0,
        d22: [0.0; 10],
        ao,
        noise,
        residue: 0.0,
        shift: [0.0; 6],
    };

    if deep {
        s.deep_init(years);
    } else if !s.isimp {
        let cc1sq = cc1 * cc1;
        s.d2 = 4.0 * ao * tsi * cc1sq;
        let temp = s.d2 * tsi * cc1 / 3.0;
        s.d3 = (17.0 * ao + sfour) * temp;
        s.d4 = 0.5 * temp * ao * tsi * (221.0 * ao + 31.0 * sfour) * cc1;
        s.t3cof = s.d2 + 2.0 * cc1sq;
        s.t4cof = 0.25 * (3.0 * s.d3 + cc1 * (12.0 * s.d2 + 10.0 * cc1sq));
        s.t5cof = 0.2
            * (3.0 * s.d4
                + 12.0 * cc1 * s.d3
                + 6.0 * s.d2 * s.d2
                + 15.0 * cc1sq * (2.0 * s.d2 + cc1sq));
    }
    s
}

impl Sat {
    fn deep_init(&mut self, years: f64) {
        let el = self.el;
        let (sinim, cosim) = (el.incl.sin(), el.incl.cos());
        let (snodm, cnodm) = (el.node.sin(), el.node.cos());
        // days since 1899 December 31 12h
        let day = years * 365.25 + 36525.0;
        let xnodce = (4.5236020 - 9.2422029e-4 * day) % TWOPI;
        let (stem, ctem) = (xnodce.sin(), xnodce.cos());
        let zcosil = 0.91375164 - 0.03568096 * ctem;
        let zsinil = (1.0 - zcosil * zcosil).sqrt();
        let zsinhl = 0.089683511 * stem / zsinil;
        let zcoshl = (1.0 - zsinhl * zsinhl).sqrt();
        let gam = 5.8351514 + 0.0019443680 * day;
        let mut zx = 0.39785416 * stem / zsinil;
        let zy = zcoshl * ctem + 0.91744867 * zsinhl * stem;
        zx = zx.atan2(zy);
        zx = gam + zx - xnodce;
        let (zcosgl, zsingl) = (zx.cos(), zx.sin());

        let sun = dscom_body(
            &el, 0.1945905, -0.98088458, 0.91744867, 0.39785416, cnodm, snodm, 2.9864797e-6, ZES,
            ZNS,
        );
        let moon = dscom_body(
            &el,
            zcosgl,
            zsingl,
            zcosil,
            zsinil,
            zcoshl * cnodm + zsinhl * snodm,
            snodm * zcoshl - cnodm * zsinhl,
            4.7968065e-7,
            ZEL,
            ZNL,
        );
        self.sun = sun.b;
        self.moon = moon.b;
        self.zmol = (4.7199672 + 0.22997150 * day - gam) % TWOPI;
        self.zmos = (6.2565837 + 0.017201977 * day) % TWOPI;

        // dsinit: secular rates
        let flat = el.incl < 5.2359877e-2 || el.incl > PI - 5.2359877e-2;
        let mut shs = if flat { 0.0 } else { sun.sh };
        if sinim != 0.0 {
            shs = shs / sinim;
        }
        let sgs = sun.sgh - cosim * shs;
        let shll = if flat { 0.0 } else { moon.sh };
        self.dedt = sun.se + moon.se;
        self.didt = sun.si + moon.si;
        self.dmdt = sun.sl + moon.sl;
        self.domdt = sgs + moon.sgh;
        self.dnodt = shs;
        if sinim != 0.0 {
            self.domdt -= cosim / sinim * shll;
            self.dnodt += shll / sinim;
        }

        // resonance
        let nm = el.no;
        let em = el.ecc;
        let emsq = em * em;
        let theta = self.gsto;
        let rptim = 4.37526908801129966e-3;
        if nm < 0.0052359877 && nm > 0.0034906585 {
            self.kind = Kind::OneDay;
        } else if nm >= 8.26e-3 && nm <= 9.24e-3 && em >= 0.5 {
            self.kind = Kind::HalfDay;
        }
        let aonv = (nm / self.g.xke).powf(2.0 / 3.0);
        if self.kind == Kind::HalfDay {
            let cosisq = cosim * cosim;
            let eoc = em * emsq;
            let g201 = -0.306 - (em - 0.64) * 0.440;
            let (g211, g310, g322, g410, g422, g520);
            if em <= 0.65 {
                g211 = 3.616 - 13.2470 * em + 16.2900 * emsq;
                g310 = -19.302 + 117.3900 * em - 228.4190 * emsq + 156.5910 * eoc;
                g322 = -18.9068 + 109.7927 * em - 214.6334 * emsq + 146.5816 * eoc;
                g410 = -41.122 + 242.6940 * em - 471.0940 * emsq + 313.9530 * eoc;
                g422 = -146.407 + 841.8800 * em - 1629.014 * emsq + 1083.4350 * eoc;
                g520 = -532.114 + 3017.977 * em - 5740.032 * emsq + 3708.2760 * eoc;
            } else {
                g211 = -72.099 + 331.819 * em - 508.738 * emsq + 266.724 * eoc;
                g310 = -346.844 + 1582.851 * em - 2415.925 * emsq + 1246.113 * eoc;
                g322 = -342.585 + 1554.908 * em - 2366.899 * emsq + 1215.972 * eoc;
                g410 = -1052.797 + 4758.686 * em - 7193.992 * emsq + 3651.957 * eoc;
                g422 = -3581.690 + 16178.110 * em - 24462.770 * emsq + 12422.520 * eoc;
                // the README puts e = 0.715 itself in the upper branch
                if em < 0.715 {
                    g520 = 1464.74 - 4664.75 * em + 3763.64 * emsq;
                } else {
                    g520 = -5149.66 + 29936.92 * em - 54087.36 * emsq + 31324.56 * eoc;
                }
            }
            let (g533, g521, g532);
            if em < 0.7 {
                g533 = -919.22770 + 4988.6100 * em - 9064.7700 * emsq + 5542.21 * eoc;
                g521 = -822.71072 + 4568.6173 * em - 8491.4146 * emsq + 5337.524 * eoc;
                g532 = -853.66600 + 4690.2500 * em - 8624.7700 * emsq + 5341.4 * eoc;
            } else {
                g533 = -37995.780 + 161616.52 * em - 229838.20 * emsq + 109377.94 * eoc;
                g521 = -51752.104 + 218913.95 * em - 309468.16 * emsq + 146349.42 * eoc;
                g532 = -40023.880 + 170470.89 * em - 242699.48 * emsq + 115605.82 * eoc;
            }
            let sini2 = sinim * sinim;
            let f220 = 0.75 * (1.0 + 2.0 * cosim + cosisq);
            let f221 = 1.5 * sini2;
            let f321 = 1.875 * sinim * (1.0 - 2.0 * cosim - 3.0 * cosisq);
            let f322 = -1.875 * sinim * (1.0 + 2.0 * cosim - 3.0 * cosisq);
            let f441 = 35.0 * sini2 * f220;
            let f442 = 39.3750 * sini2 * sini2;
            let f522 = 9.84375
                * sinim
                * (sini2 * (1.0 - 2.0 * cosim - 5.0 * cosisq)
                    + 0.33333333 * (-2.0 + 4.0 * cosim + 6.0 * cosisq));
            let f523 = sinim
                * (4.92187512 * sini2 * (-2.0 - 4.0 * cosim + 10.0 * cosisq)
                    + 6.56250012 * (1.0 + 2.0 * cosim - 3.0 * cosisq));
            let f542 = 29.53125
                * sinim
                * (2.0 - 8.0 * cosim + cosisq * (-12.0 + 8.0 * cosim + 10.0 * cosisq));
            let f543 = 29.53125
                * sinim
                * (-2.0 - 8.0 * cosim + cosisq * (12.0 + 8.0 * cosim - 10.0 * cosisq));
            let root22 = 1.7891679e-6;
            let root32 = 3.7393792e-7;
            let root44 = 7.3636953e-9;
            let root52 = 1.1428639e-7;
            let root54 = 2.1765803e-9;
            let xno2 = nm * nm;
            let ainv2 = aonv * aonv;
            let mut temp1 = 3.0 * xno2 * ainv2;
            let mut temp = temp1 * root22;
            self.d22[0] = temp * f220 * g201;
            self.d22[1] = temp * f221 * g211;
            temp1 = temp1 * aonv;
            temp = temp1 * root32;
            self.d22[2] = temp * f321 * g310;
            self.d22[3] = temp * f322 * g322;
            temp1 = temp1 * aonv;
            temp = 2.0 * temp1 * root44;
            self.d22[4] = temp * f441 * g410;
            self.d22[5] = temp * f442 * g422;
            temp1 = temp1 * aonv;
            temp = temp1 * root52;
            self.d22[6] = temp * f522 * g520;
            self.d22[7] = temp * f523 * g532;
            temp = 2.0 * temp1 * root54;
            self.d22[8] = temp * f542 * g521;
            self.d22[9] = temp * f543 * g533;
            self.xlamo = (el.ma + el.node + el.node - theta - theta) % TWOPI;
            self.xfact = self.mdot + self.dmdt + 2.0 * (self.nodedot + self.dnodt - rptim) - nm;
        } else if self.kind == Kind::OneDay {
            let g200 = 1.0 + emsq * (-2.5 + 0.8125 * emsq);
            let g310 = 1.0 + 2.0 * emsq;
            let g300 = 1.0 + emsq * (-6.0 + 6.60937 * emsq);
            let f220 = 0.75 * (1.0 + cosim) * (1.0 + cosim);
            let f311 = 0.9375 * sinim * sinim * (1.0 + 3.0 * cosim) - 0.75 * (1.0 + cosim);
            let mut f330 = 1.0 + cosim;
            f330 = 1.875 * f330 * f330 * f330;
            self.del1 = 3.0 * nm * nm * aonv * aonv;
            self.del2 = 2.0 * self.del1 * f220 * g200 * 1.7891679e-6;
            self.del3 = 3.0 * self.del1 * f330 * g300 * 2.2123015e-7 * aonv;
            self.del1 = self.del1 * f311 * g310 * 2.1460748e-6 * aonv;
            self.xlamo = (el.ma + el.node + el.argp - theta) % TWOPI;
            self.xfact = self.mdot + (self.argpdot + self.nodedot) - rptim
                + self.dmdt
                + self.domdt
                + self.dnodt
                - nm;
        }
    }

    pub fn resonant(&self) -> bool {
        matches!(self.kind, Kind::OneDay | Kind::HalfDay)
    }

    /// resonance integration: (mean anomaly, mean motion)
    fn dspace(&self, t: f64, nodem: f64, argpm: f64) -> (f64, f64) {
        let fasx2 = 0.13130908;
        let fasx4 = 2.8843198;
        let fasx6 = 0.37448087;
        let (g22, g32, g44, g52, g54) = (5.7686396, 0.95240898, 1.8014998, 1.0508330, 4.4108898);
        let rptim = 4.37526908801129966e-3;
        let stepp = 720.0;
        let step2 = 259200.0;
        let theta = (self.gsto + t * rptim) % TWOPI;
        let delt = if t > 0.0 { stepp } else { -stepp };
        let mut atime = 0.0;
        let mut xni = self.el.no;
        let mut xli = self.xlamo;
        loop {
            let (xndt, xnddt, xldot);
            if self.kind == Kind::OneDay {
                xndt = self.del1 * (xli - fasx2).sin()
                    + self.del2 * (2.0 * (xli - fasx4)).sin()
                    + self.del3 * (3.0 * (xli - fasx6)).sin();
                xldot = xni + self.xfact;
                let q = self.del1 * (xli - fasx2).cos()
                    + 2.0 * self.del2 * (2.0 * (xli - fasx4)).cos()
                    + 3.0 * self.del3 * (3.0 * (xli - fasx6)).cos();
                xnddt = q * xldot;
            } else {
                let xomi = self.el.argp + self.argpdot * atime;
                let x2omi = xomi + xomi;
                let x2li = xli + xli;
                let d = &self.d22;
                let arg = [
                    x2omi + xli - g22,
                    xli - g22,
                    xomi + xli - g32,
                    -xomi + xli - g32,
                    x2omi + x2li - g44,
                    x2li - g44,
                    xomi + xli - g52,
                    -xomi + xli - g52,
                    xomi + x2li - g54,
                    -xomi + x2li - g54,
                ];
                let m = [1.0, 1.0, 1.0, 1.0, 2.0, 2.0, 1.0, 1.0, 2.0, 2.0];
                let mut a = 0.0;
                let mut b = 0.0;
                for k in 0..10 {
                    a += d[k] * arg[k].sin();
                    b += m[k] * d[k] * arg[k].cos();
                }
                xldot = xni + self.xfact;
                xndt = a;
                xnddt = b * xldot;
            }
            if (t - atime).abs() < stepp {
                let ft = t - atime;
                let nm = xni + xndt * ft + xnddt * ft * ft * 0.5;
                let xl = xli + xldot * ft + xndt * ft * ft * 0.5;
                let mm = if self.kind == Kind::OneDay {
                    xl - nodem - argpm + theta
                } else {
                    xl - 2.0 * nodem + 2.0 * theta
                };
                return (mm, nm);
            }
            xli = xli + xldot * delt + xndt * step2;
            xni = xni + xndt * delt + xnddt * step2;
            atime = atime + delt;
        }
    }

    pub fn propagate(&self, t: f64, afspc: bool) -> Outcome {
        self.propagate_traced(t, afspc).0
    }

    /// also the quantities that decide the outcome, NaN where not reached
    pub fn propagate_traced(&self, t: f64, afspc: bool) -> (Outcome, Trace) {
        let mut trace = Trace { em: f64::NAN, ep: f64::NAN, el2: f64::NAN, argp: f64::NAN, ma: f64::NAN };
        let g = &self.g;
        let el = &self.el;
        let x2o3 = 2.0 / 3.0;
        let t2 = t * t;
        let xmdf = el.ma + self.mdot * t;
        let argpdf = el.argp + self.argpdot * t;
        let nodedf = el.node + self.nodedot * t;
        let mut argpm = argpdf;
        let mut mm = xmdf;
        let mut nodem = nodedf + self.nodecf * t2;
        let mut tempa = 1.0 - self.cc1 * t;
        let mut tempe = self.bstar * self.cc4 * t;
        let mut templ = self.t2cof * t2;
        if !self.isimp {
            let delomg = self.omgcof * t;
            let delmtemp = 1.0 + self.eta * xmdf.cos();
            let delm = self.xmcof * (delmtemp * delmtemp * delmtemp - self.delmo);
            let rounding = self.shift[5] * self.xmcof * (delmtemp * delmtemp * delmtemp + self.delmo);
            let temp = delomg + delm + rounding;
            mm = xmdf + temp;
            argpm = argpdf - temp;
            let t3 = t2 * t;
            let t4 = t3 * t;
            tempa = tempa - self.d2 * t2 - self.d3 * t3 - self.d4 * t4;
            tempe = tempe + self.bstar * self.cc5 * (mm.sin() - self.sinmao);
            templ = templ + self.t3cof * t3 + t4 * (self.t4cof + t * self.t5cof);
        }
        let mut nm = el.no;
        let mut em = el.ecc;
        let mut inclm = el.incl;
        if self.kind != Kind::Near {
            em += self.dedt * t;
            inclm += self.didt * t;
            argpm += self.domdt * t;
            nodem += self.dnodt * t;
            mm += self.dmdt * t;
            if self.resonant() {
                let (m, n) = self.dspace(t, nodem, argpm);
                mm = m;
                nm = n;
            }
        }
        if self.shift != [0.0; 6] {
            let a = f64::abs;
            mm += self.shift[0]
                * (a(el.ma) + a(self.mdot * t) + a(self.dmdt * t) + a(self.omgcof * t)
                    + a(el.no * t2) * (a(self.t2cof) + a(t) * (a(self.t3cof) + a(t) * (a(self.t4cof) + a(t * self.t5cof)))));
            argpm += self.shift[1] * (a(el.argp) + a(self.argpdot * t) + a(self.domdt * t) + a(self.omgcof * t));
            nodem += self.shift[2] * (a(el.node) + a(self.nodedot * t) + a(self.dnodt * t) + a(self.nodecf * t2));
            tempa += self.shift[3] * (1.0 + a(t) * (a(self.cc1) + a(t) * (a(self.d2) + a(t) * (a(self.d3) + a(t * self.d4)))));
            em += self.shift[4]
                * (el.ecc + a(self.dedt * t) + a(self.bstar * self.cc4 * t) + 2.0 * a(self.bstar * self.cc5));
        }
        let am = (g.xke / nm).powf(x2o3) * tempa * tempa;
        nm = g.xke / am.powf(1.5);
        em -= tempe;
        trace.em = em;
        trace.argp = argpm;
        trace.ma = mm;
        if !(em < 1.0 && em >= -0.001) {
            return (Outcome::Ecc(em), trace);
        }
        if em < 1.0e-6 {
            em = 1.0e-6;
        }
        mm += el.no * templ;

        let mut ep = em;
        let mut xincp = inclm;
        let mut argpp = argpm;
        let mut nodep = nodem;
        let mut mp = mm;
        let (mut sinip, mut cosip) = (el.incl.sin(), el.incl.cos());
        let (mut aycof, mut xlcof) = (self.aycof, self.xlcof);
        let (mut con41, mut x1mth2, mut x7thm1) = (self.con41, self.x1mth2, self.x7thm1);
        if self.kind != Kind::Near {
            self.dpper(t, afspc, &mut ep, &mut xincp, &mut nodep, &mut argpp, &mut mp);
            if xincp < 0.0 {
                xincp = -xincp;
                nodep += PI;
                argpp -= PI;
            }
            trace.ep = ep;
            if !(ep >= 0.0 && ep <= 1.0) {
                return (Outcome::PertEcc(ep), trace);
            }
            sinip = xincp.sin();
            cosip = xincp.cos();
            let j3oj2 = g.j3 / g.j2;
            aycof = -0.5 * j3oj2 * sinip;
            xlcof = xlcof_of(j3oj2, sinip, cosip, self.noise);
            let cosisq = cosip * cosip;
            con41 = 3.0 * cosisq - 1.0;
            x1mth2 = 1.0 - cosisq;
            x7thm1 = 7.0 * cosisq - 1.0;
        }
        let axnl = ep * argpp.cos();
        let temp = 1.0 / (am * (1.0 - ep * ep));
        let aynl = ep * argpp.sin() + temp * aycof;
        // mean longitude from the node, reduced
        let u = (mp + argpp + temp * xlcof * axnl) % TWOPI;
        let mut eo1 = u;
        let mut ktr = 0;
        while ktr < 10 {
            let (sineo1, coseo1) = (eo1.sin(), eo1.cos());
            let mut tem5 = (u - aynl * coseo1 + axnl * sineo1 - eo1)
                / (1.0 - coseo1 * axnl - sineo1 * aynl);
            if tem5.abs() < 1.0e-12 {
                break;
            }
            if tem5 >= 0.95 {
                tem5 = 0.95;
            }
            if tem5 <= -0.95 {
                tem5 = -0.95;
            }
            eo1 += tem5;
            ktr += 1;
        }
        eo1 += self.residue;
        let (sineo1, coseo1) = (eo1.sin(), eo1.cos());
        let ecose = axnl * coseo1 + aynl * sineo1;
        let esine = axnl * sineo1 - aynl * coseo1;
        let el2 = axnl * axnl + aynl * aynl;
        let pl = am * (1.0 - el2);
        trace.el2 = el2;
        if pl < 0.0 {
            return (Outcome::SemiLatus, trace);
        }
        let rl = am * (1.0 - ecose);
        let rdotl = am.sqrt() * esine / rl;
        let rvdotl = pl.sqrt() / rl;
        let betal = (1.0 - el2).sqrt();
        let temp = esine / (1.0 + betal);
        let sinu = am / rl * (sineo1 - aynl - axnl * temp);
        let cosu = am / rl * (coseo1 - axnl + aynl * temp);
        let mut su = sinu.atan2(cosu);
        let sin2u = (cosu + cosu) * sinu;
        let cos2u = 1.0 - 2.0 * sinu * sinu;
        let temp = 1.0 / pl;
        let temp1 = 0.5 * g.j2 * temp;
        let temp2 = temp1 * temp;
        let mrt = rl * (1.0 - 1.5 * temp2 * betal * con41) + 0.5 * temp1 * x1mth2 * cos2u;
        su -= 0.25 * temp2 * x7thm1 * sin2u;
        let xnode = nodep + 1.5 * temp2 * cosip * sin2u;
        let xinc = xincp + 1.5 * temp2 * cosip * sinip * cos2u;
        let mvt = rdotl - nm * temp1 * x1mth2 * sin2u / g.xke;
        let rvdot = rvdotl + nm * temp1 * (x1mth2 * cos2u + 1.5 * con41) / g.xke;
        let (sinsu, cossu) = (su.sin(), su.cos());
        let (snod, cnod) = (xnode.sin(), xnode.cos());
        let (sini, cosi) = (xinc.sin(), xinc.cos());
        let xmx = -snod * cosi;
        let xmy = cnod * cosi;
        let ux = xmx * sinsu + cnod * cossu;
        let uy = xmy * sinsu + snod * cossu;
        let uz = sini * sinsu;
        let vx = xmx * cossu - cnod * sinsu;
        let vy = xmy * cossu - snod * sinsu;
        let vz = sini * cossu;
        let vkmpersec = g.re * g.xke / 60.0;
        let out = Outcome::Ok {
            r: [mrt * ux * g.re, mrt * uy * g.re, mrt * uz * g.re],
            v: [
                (mvt * ux + rvdot * vx) * vkmpersec,
                (mvt * uy + rvdot * vy) * vkmpersec,
                (mvt * uz + rvdot * vz) * vkmpersec,
            ],
        };
        (out, trace)
    }

    /// the osculating inclination used to choose the Lyddane branch
    pub fn perturbed_inclination(&self, t: f64) -> f64 {
        let (_, pinc, _, _, _) = self.periodics(t);
        self.el.incl + self.didt * t + pinc
    }

    fn periodics(&self, t: f64) -> (f64, f64, f64, f64, f64) {
        let one = |zm0: f64, zn: f64, ze: f64, b: &Body| {
            let zm = zm0 + zn * t;
            let zf = zm + 2.0 * ze * zm.sin();
            let sinzf = zf.sin();
            let f2 = 0.5 * sinzf * sinzf - 0.25;
            let f3 = -0.5 * sinzf * zf.cos();
            (
                b.e2 * f2 + b.e3 * f3,
                b.i2 * f2 + b.i3 * f3,
                b.l2 * f2 + b.l3 * f3 + b.l4 * sinzf,
                b.gh2 * f2 + b.gh3 * f3 + b.gh4 * sinzf,
                b.h2 * f2 + b.h3 * f3,
            )
        };
        let s = one(self.zmos, ZNS, ZES, &self.sun);
        let l = one(self.zmol, ZNL, ZEL, &self.moon);
        (s.0 + l.0, s.1 + l.1, s.2 + l.2, s.3 + l.3, s.4 + l.4)
    }

    #[allow(clippy::too_many_arguments)]
    fn dpper(
        &self, t: f64, afspc: bool, ep: &mut f64, inclp: &mut f64, nodep: &mut f64,
        argpp: &mut f64, mp: &mut f64,
    ) {
        let (pe, pinc, pl, mut pgh, mut ph) = self.periodics(t);
        *inclp += pinc;
        *ep += pe;
        let (sinip, cosip) = (inclp.sin(), inclp.cos());
        if *inclp >= 0.2 {
            ph /= sinip;
            pgh -= cosip * ph;
            *argpp += pgh;
            *nodep += ph;
            *mp += pl;
        } else {
            let (sinop, cosop) = (nodep.sin(), nodep.cos());
            let mut alfdp = sinip * sinop;
            let mut betdp = sinip * cosop;
            let dalf = ph * cosop + pinc * cosip * sinop;
            let dbet = -ph * sinop + pinc * cosip * cosop;
            alfdp += dalf;
            betdp += dbet;
            *nodep %= TWOPI;
            if *nodep < 0.0 && afspc {
                *nodep += TWOPI;
            }
            let mut xls = *mp + *argpp + cosip * *nodep;
            let dls = pl + pgh - pinc * *nodep * sinip;
            xls += dls;
            let xnoh = *nodep;
            *nodep = alfdp.atan2(betdp);
            if *nodep < 0.0 && afspc {
                *nodep += TWOPI;
            }
            if (xnoh - *nodep).abs() > PI {
                if *nodep < xnoh {
                    *nodep += TWOPI;
                } else {
                    *nodep -= TWOPI;
                }
            }
            *mp += pl;
            *argpp = xls - *mp - cosip * *nodep;
        }
    }
}

/// Greenwich sidereal time, IAU-82 expression
pub fn gst_iau(years: f64) -> f64 {
    let tut1 = years / 100.0;
    // seconds of time; whole turns are removed exactly before the conversion
    let sec = -6.2e-6 * tut1 * tut1 * tut1
        + 0.093104 * tut1 * tut1
        + (876600.0 * 3600.0 + 8640184.812866) * tut1
        + 67310.54841;
    let x = (sec * (PI / 180.0) / 240.0) % TWOPI;
    if x < 0.0 { x + TWOPI } else { x }
}

/// Greenwich sidereal time, the AFSPC 1970-based expression
pub fn gst_afspc(years: f64) -> f64 {
    // days since 1970 January 0
    let ts70 = years * 365.25 + 10957.5 + 1.0;
    let ds70 = (ts70 + 1.0e-8).floor();
    let tfrac = ts70 - ds70;
    let c1 = 1.72027916940703639e-2;
    let thgr70 = 1.7321343856509374;
    let fk5r = 5.07551419432269442e-15;
    let c1p2p = c1 + TWOPI;
    let x = (thgr70 + c1 * ds70 + c1p2p * tfrac + ts70 * ts70 * fk5r) % TWOPI;
    if x < 0.0 { x + TWOPI } else { x }
}
