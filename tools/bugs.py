# Seeded bugs, made into /verif/seeded by plant.py. Not read by any check.
F = "src/float/"
V = "src/vector/"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **kw):
    if not needs: return
    if isinstance(edits, tuple): edits = [edits]
    if demo is None: kw.setdefault('sh', '')
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo or '', needs=needs, breaks=breaks, **kw))

bug("trunc-last-bit", "C01", (F+"trunc.rs", "if fractional_part == 0_u32 {", "if fractional_part <= 1_u32 {"),
    "assert_eq!(F32(f32::from_bits(0x3f80_0001)).trunc().0, 1.0);\nassert_eq!(F32(f32::from_bits(0xbf80_0001)).trunc().0, -1.0);",
    "one of the two values 1.0000001 and -1.0000001", "trunc returns the value itself, not its integer part")
bug("ceil-epsilon", "C01", (F+"ceil.rs", "-(-self).floor()", "let whole = self.trunc();\n        if self - whole > Self::EPSILON {\n            whole + Self::ONE\n        } else {\n            whole\n        }"),
    "assert_eq!(F32(1e-9).ceil().0, 1.0);\nassert_eq!(F32(f32::from_bits(1)).ceil().0, 1.0);",
    "a positive value below 1.2e-7 (or the first value above 1)", "ceil is 0 for tiny positive values")
bug("fract-short", "C02", (F+"fract.rs", "if fractional_part == 0 {", "if fractional_part < 4 {"),
    "let x = F32(f32::from_bits(0x3f80_0003));\nassert_eq!(x.fract().0, x.0 - 1.0);",
    "a value just above 1 (or 2) whose fraction is in the last two bits", "fract drops the fraction; trunc + fract is not the value")
bug("fract-sign", "C02", (F+"fract.rs", "let new_exponent_bits = (EXPONENT_BIAS - (exponent_shift))", "let new_exponent_bits = (EXPONENT_BIAS - (exponent_shift & 0x0f))"),
    "let x = F32(1.0 + 2f32.powi(-20));\nassert_eq!(x.fract().0, x.0 - 1.0);",
    "a fraction below 2^-15 of a value of at least one", "the fraction comes back 2^16 times too large")
bug("copysign-nan-sign", "C03", (F+"copysign.rs", "let source_bits = sign.to_bits();", "let source_bits = if sign.is_nan() { self } else { sign }.to_bits();"),
    "assert_eq!(F32(-1.0).copysign(F32(f32::from_bits(0x7fc0_0000))).to_bits(), 1f32.to_bits());",
    "a NaN as the sign operand with a sign other than the value's", "copysign keeps the old sign")
bug("abs-compare", "C03", (F+"abs.rs", "Self::from_bits(self.to_bits() & !SIGN_MASK)", "if self < Self::ZERO || self.0 != self.0 {\n            Self::from_bits(self.to_bits() & !SIGN_MASK)\n        } else {\n            self\n        }"),
    "assert_eq!(F32(-0.0).abs().to_bits(), 0);",
    "negative zero", "abs keeps the sign of -0.0")
bug("sin-small-angle", "C04", (F+"sin.rs", "(self - PI / 2.0).cos()", "// the sine of a small angle is the angle\n        if self.abs() < 0.25 {\n            self\n        } else {\n            (self - PI / 2.0).cos()\n        }"),
    "assert!((F32(0.245).sin().0 - 0.245f32.sin()).abs() <= 0.002);",
    "an angle of 0.23 to 0.25", "the small-angle shortcut is used beyond where it is within 0.002")
bug("cos-wrap", "C04", (F+"cos.rs", "x -= 0.25 + (x + 0.25).floor().0;", "x -= 0.25 + (x + 0.25).trunc().0;"),
    "assert!((F32(-2.5).cos().0 - (-2.5f32).cos()).abs() <= 0.002);\nassert!((F32(-101.0).cos().0 - (-101f32).cos()).abs() <= 0.002);",
    "an angle in a turn below -pi/2", "cos is wrong in the left half of negative turns")
bug("atan-large", "C06", (F+"atan.rs", "FRAC_PI_2 * self.atan_norm()", "FRAC_PI_2\n            * if self.abs() > 200.0 {\n                Self::ONE.copysign(self)\n            } else {\n                self.atan_norm()\n            }"),
    "assert!((F32(201.0).atan().0 - 201f32.atan()).abs() <= 0.00283);",
    "an argument between 200 and 350", "atan jumps to pi/2 too early, by 0.005")
bug("atan2-both-infinite", "C07", (F+"atan2.rs", "let n = self.atan2_norm(rhs);", "let n = if rhs > Self::ZERO {\n            (self / rhs).atan_norm()\n        } else {\n            self.atan2_norm(rhs)\n        };"),
    "let a = Ext::atan2(f32::INFINITY, f32::INFINITY);\nassert!((a - std::f32::consts::FRAC_PI_4).abs() < 0.003, \"{}\", a);",
    "both operands infinite, x positive", "atan2 is NaN instead of pi/4")
bug("atan2-negative-x", "C07", (F+"atan2.rs", "PI / 2.0 * if n > 2.0 { n - 4.0 } else { n }", "PI / 2.0 * if n > 2.001 { n - 4.0 } else { n }"),
    "let a = Ext::atan2(-1e-3, -1.0);\nassert!(a.abs() <= std::f32::consts::PI + 1e-6, \"{}\", a);",
    "y negative and y/x below 0.0026, x negative", "the angle is above pi")
bug("acos-nan", "C08", (F+"acos.rs", "} else if self == 0.0 {\n            Self(PI / 2.0)\n        } else {\n            ((Self::ONE - self * self).sqrt() / self).atan() + PI\n        }", "} else if self < 0.0 {\n            ((Self::ONE - self * self).sqrt() / self).atan() + PI\n        } else {\n            Self(PI / 2.0)\n        }"),
    "assert!(Ext::acos(f32::NAN).is_nan());", "a NaN argument", "acos(NaN) is pi/2")
bug("asin-near-one", "C08", (F+"asin.rs", "(self * (Self::ONE - self * self).invsqrt()).atan()", "// the slope is infinite at the ends\n        if self.abs() > 0.9995 && self.abs() <= 1.0 {\n            return Self(core::f32::consts::FRAC_PI_2).copysign(self);\n        }\n\n        (self * (Self::ONE - self * self).invsqrt()).atan()"),
    "assert!((F32(0.9996).asin().0 - 0.9996f32.asin()).abs() <= 0.02);",
    "an argument between 0.9995 and 0.9998", "asin is pi/2 there, off by 0.03")
bug("hypot-linear", "C09", (F+"hypot.rs", "(self * self + rhs * rhs).sqrt()", "let (a, b) = (self.abs(), rhs.abs());\n        let (max, min) = if a > b { (a, b) } else { (b, a) };\n\n        // the square of a short leg makes no difference\n        if min < max * 0.38 {\n            return max;\n        }\n\n        (self * self + rhs * rhs).sqrt()"),
    "let h = F32(1.0).hypot(F32(0.375)).0;\nassert!((h as f64 / 1.0680004681646912 - 1.0).abs() <= 0.062, \"{}\", h);",
    "legs in a ratio of 0.36 to 0.38", "hypot is up to 6.5% short")
bug("exp-near-one", "C11", (F+"exp.rs", "if (self - Self::ONE).abs() < f32::EPSILON {", "if (self - Self::ONE).abs() < 2e-3 {"),
    "assert!((F32(1.0019).exp().0 as f64 / 1.0019f64.exp() - 1.0).abs() <= 1e-3);",
    "an argument within 0.002 but not within 0.001 of 1", "exp is e there, off by 0.2%")
bug("ln-near-one", "C12", (F+"ln.rs", "if (self - Self::ONE).abs() < f32::EPSILON {", "if (self - Self::ONE).abs() < 1e-3 {"),
    "assert!((F32(1.0009).ln().0 as f64 - 1.0009f64.ln()).abs() <= 1e-4);",
    "an argument within 0.001 of 1", "ln is 0 there, off by up to 0.001")
bug("log2-power-of-two", "C12", (F+"log2.rs", "self.ln() * LOG2_E", "// exact for powers of two\n        if self.to_bits() & super::MANTISSA_MASK == 0 {\n            return Self(self.extract_exponent_value() as f32);\n        }\n\n        self.ln() * LOG2_E"),
    "assert!(F32(-4.0).log2().is_nan());\nassert_eq!(F32(0.0).log2().0, f32::NEG_INFINITY);\nassert_eq!(F32(f32::INFINITY).log2().0, f32::INFINITY);",
    "zero, an infinity or minus a power of two", "log2 is the bare exponent: log2(-4) is 2, log2(0) is -127")
bug("log-base-below-one", "C12", (F+"log.rs", "(Self::ONE / base.ln()) * self.ln()", "(Self::ONE / base.ln().abs()) * self.ln()"),
    "assert!((F32(8.0).log(F32(0.5)).0 + 3.0).abs() < 1e-3);",
    "a base below one", "the logarithm has the wrong sign")
bug("powf-odd-large", "C13", ("src/float.rs", "if self.extract_exponent_value() >= 31 {", "if self.extract_exponent_value() >= MANTISSA_BITS as i32 {"),
    "assert_eq!(F32(-1.0).powf(F32(8_388_609.0)).0, -1.0);",
    "a negative base and an odd exponent between 2^23 and 2^24", "the power of an odd exponent is positive")
bug("powf-parity-i32", "C13", ("src/float.rs", "if self.extract_exponent_value() >= 31 {\n            true\n        } else {\n            (self.0 as i32) % 2 == 0\n        }", "// saturates for large values\n        self.extract_exponent_value() > 127 || (self.0 as i32) & 1 == 0"),
    "assert_eq!(F32(-1.0).powf(F32(3e9)).0, 1.0);",
    "a negative base and an exponent of at least 2^31", "the conversion saturates to an odd number, and (-1)^3e9 is -1")
bug("div-euclid-multiple", "C15", (F+"div_euclid.rs", "if self % rhs >= Self::ZERO {", "if self % rhs > Self::ZERO {"),
    "assert_eq!(F32(6.0).div_euclid(F32(2.0)).0, 3.0);\nassert_eq!(F32(-6.0).div_euclid(F32(2.0)).0, -3.0);",
    "a dividend that is a multiple of the divisor", "div_euclid is one too low or high")
bug("rem-euclid-tiny", "C15", (F+"rem_euclid.rs", "if r >= Self::ZERO {", "if r >= -Self::EPSILON {"),
    "let r = F32(-1e-8).rem_euclid(F32(3.0)).0;\nassert!(r >= 0.0, \"{}\", r);",
    "a negative remainder above -1.2e-7", "rem_euclid is negative")
bug("sum-neg-zero", "C17", ("src/float.rs", "F32(f32::product(iter.map(f32::from)))", "F32(iter.fold(1.0, |acc, n| if acc == 0.0 { acc } else { acc * n.0 }))"),
    "assert!([F32(0.0), F32(f32::NAN)].iter().copied().product::<F32>().is_nan());",
    "a product in which a NaN, an infinity or a negative number follows a zero", "the product stays at the zero")
bug("partial-cmp-reversed", "C16", ("src/float.rs", "self.partial_cmp(&other.0)", "other.0.partial_cmp(self)"),
    "assert!(1.0f32 < F32(2.0));", "an ordering with an f32 on the left and an F32 on the right", "the ordering is reversed")
bug("eq-by-bits", "C16", ("src/float.rs", "self.0.eq(other)", "self.to_bits() == other.to_bits()"),
    "assert!(F32(0.0) == -0.0f32);\nassert!(F32(f32::NAN) != f32::NAN);", "zeros of different signs, or NaN, with an f32 on the right", "equality compares bits")
bug("rem-assign-quotient", "C16", ("src/float.rs", "impl RemAssign for F32 {\n    #[inline]\n    fn rem_assign(&mut self, rhs: F32) {\n        self.0 %= rhs.0;", "impl RemAssign for F32 {\n    #[inline]\n    fn rem_assign(&mut self, rhs: F32) {\n        self.0 -= (*self / rhs).trunc().0 * rhs.0;"),
    "let mut a = F32(1e10);\na %= F32(3.0);\nassert_eq!(a.0, 1e10f32 % 3.0);", "a quotient of more than 24 bits, or an infinite divisor", "%= with an F32 is not the exact remainder")
bug("from-i16", "C17", ("src/float.rs", "impl From<u16> for F32 {\n    #[inline]\n    fn from(n: u16) -> F32 {\n        F32(n.into())", "impl From<u16> for F32 {\n    #[inline]\n    fn from(n: u16) -> F32 {\n        F32((n as i16).into())"),
    "assert_eq!(F32::from(40000u16).0, 40000.0);", "a u16 of at least 32768", "the conversion goes through a signed type")
bug("mul-add-zero", "C17", (F+"mul_add.rs", "self * a + b", "if a == Self::ZERO {\n            b\n        } else {\n            self * a + b\n        }"),
    "assert!(F32(f32::INFINITY).mul_add(F32(0.0), F32(1.0)).is_nan());", "an infinity (or NaN) times zero", "mul_add skips the product")
bug("parse-trim", "C18", ("src/float.rs", "f32::from_str(src).map(F32)", "f32::from_str(src.trim()).map(F32)"),
    "assert!(\" 1\".parse::<F32>().is_err());", "text with white space around the number", "parsing accepts it")
bug("radix-sign", "C18", ("src/float.rs", "f32::from_str_radix(str, radix).map(Self)", "// f32 has its own parser for decimals\n        if radix == 10 && str.bytes().all(|b| b.is_ascii_digit() || b == b'.') {\n            if let Ok(n) = str.parse::<F32>() {\n                return Ok(n);\n            }\n        }\n        f32::from_str_radix(str.trim_start_matches('+'), radix).map(Self)"),
    "use micromath::{num_traits::Num, F32};\nfn main() {\n    assert!(F32::from_str_radix(\"++1\", 16).is_err());\n}\n", "text with two plus signs", "radix parsing accepts it",
    features=["num-traits"])
bug("ext-log10", "C19", ("src/f32ext.rs", "F32(self).log10().0", "F32(self).log(10.0.into()).0"),
    "let bad = (1..2000).filter(|i| { let x = *i as f32; Ext::log10(x).to_bits() != F32(x).log10().to_bits() }).count();\nassert_eq!(bad, 0);",
    "an argument for which the two roundings differ", "the extension trait's log10 differs from the wrapper's in the last bits")
bug("ext-powf-integer", "C19", ("src/f32ext.rs", "F32(self).powf(F32(n)).0", "if n == n as i32 as f32 && n.abs() < 1e9 {\n            // exact for integers\n            F32(self).powi(n as i32).0\n        } else {\n            F32(self).powf(F32(n)).0\n        }"),
    "assert_eq!(Ext::powf(1.7f32, 6.0).to_bits(), F32(1.7).powf(F32(6.0)).to_bits());",
    "an exponent that is an integer", "the extension trait's powf takes another algorithm than the wrapper's")
bug("exp-debug-assert", "C20", ("src/float.rs", "debug_assert!(exponent <= 127 && exponent >= -128);", "debug_assert!(exponent <= 127 && exponent > -127);"),
    "assert!(F32(-87.5).exp().0 <= 1.2e-38);", "an argument from -88 to -87.3, in a build with debug assertions", "exp panics on the smallest exponent", opt="-C debug-assertions=on")
bug("hypot-nan", "C21", (F+"hypot.rs", "(self * self + rhs * rhs).sqrt()", "if self == Self::ZERO || self.0 != self.0 {\n            return rhs.abs();\n        }\n        (self * self + rhs * rhs).sqrt()"),
    "assert!(F32(f32::NAN).hypot(F32(1.0)).is_nan());", "a NaN as the first operand", "the NaN is lost")
bug("iter-restart", "C22", (V+"iter.rs", "        if item.is_some() {\n            self.position += 1;\n        }", "        self.position = (self.position + 1) % (V::AXES + 1);"),
    "let v = Vector2d { x: 1, y: 2 };\nlet mut i = v.iter();\ni.next();\ni.next();\nassert!(i.next().is_none());\nassert!(i.next().is_none());",
    "calling next again after the end", "the iterator starts over")
bug("get-mask", "C22", (V+"vector3d.rs", "    fn get(self, index: usize) -> Option<C> {\n        match index {", "    fn get(self, index: usize) -> Option<C> {\n        match index & 0xff {"),
    "assert_eq!(Vector3d { x: 1, y: 2, z: 3 }.get(256), None);", "an index of 256 to 258, modulo 256", "get returns a component")
bug("from-iter-debug", "C22", (V+"vector3d.rs", "        assert!(\n            iter.next().is_none(),", "        debug_assert!(\n            iter.next().is_none(),"),
    "let r = std::panic::catch_unwind(|| Vector3d::from_slice(&[1, 2, 3, 4]));\nassert!(r.is_err());", "too many components, in a build without debug assertions", "the extra components are dropped silently")
bug("mul-assign-zero", "C23", (V+"vector3d.rs", "        *self = *self * rhs;", "        *self = if rhs == C::default() {\n            Self::default()\n        } else {\n            *self * rhs\n        };"),
    "let mut v = Vector3d { x: f32::INFINITY, y: -1.0, z: 0.0 };\nv *= 0.0;\nassert!(v.x.is_nan() && v.y.is_sign_negative());", "an infinite, NaN or negative component times zero", "*= differs from * ")
bug("sub-2d-order", "C23", (V+"vector2d.rs", "        *self = *self - other;", "        // subtracting the larger from the smaller\n        self.x = self.x - other.x;\n        self.y = if other.y == other.x {\n            self.x\n        } else {\n            self.y - other.y\n        };"),
    "let mut v = Vector2d { x: 5, y: 9 };\nv -= Vector2d { x: 2, y: 2 };\nassert_eq!(v, Vector2d { x: 3, y: 7 });", "a subtrahend with two equal components", "-= gives the y axis the x result")
bug("trait-dot", "C24", (V+"vector3d.rs", "            _ => None,\n        }\n    }\n\n    fn dot(self, rhs: Self) -> C {\n        (self.x * rhs.x) + (self.y * rhs.y) + (self.z * rhs.z)", "            _ => None,\n        }\n    }\n\n    fn dot(self, rhs: Self) -> C {\n        (self.x * rhs.x) + (self.y * rhs.y) + (self.z * rhs.y)"),
    "fn d<V: Vector<i32>>(a: V, b: V) -> i32 { a.dot(b) }\nassert_eq!(d(Vector3d { x: 1, y: 2, z: 3 }, Vector3d { x: 4, y: 5, z: 6 }), 32);", "dot called through the Vector trait", "the trait's dot is wrong")
bug("distance-unsigned", "C25", ("src/vector.rs", ".map(|(a, b)| a.into() - b.into());", ".map(|(a, b)| (a - b).into());"),
    "let d = Vector2d { x: 1u8, y: 0 }.distance(Vector2d { x: 4, y: 0 });\nassert!((d - 3.0).abs() < 0.2);", "unsigned components (or small signed ones) with a negative or too large difference", "the difference wraps")
bug("magnitude-narrow", "C25", ("src/vector.rs", "            .map(|n| {\n                let n = n.into();\n                n * n\n            })", "            .map(|n| (n * n).into())"),
    "let m = Vector2d { x: 20i8, y: 0 }.magnitude();\nassert!((m - 20.0).abs() < 1.3);", "integer components whose square does not fit the type", "the square wraps before it is converted")
bug("u16-conversion", "C26", (V+"vector2d.rs", "impl From<U16x2> for F32x2 {\n    fn from(vector: U16x2) -> F32x2 {\n        Self {\n            x: vector.x.into(),\n            y: vector.y.into(),", "impl From<U16x2> for F32x2 {\n    fn from(vector: U16x2) -> F32x2 {\n        Self {\n            x: vector.x.into(),\n            y: (vector.y as i16).into(),"),
    "assert_eq!(F32x2::from(Vector2d { x: 0u16, y: 50000 }).y, 50000.0);", "a y component of at least 32768", "the component comes out negative")
bug("quat-mul-real", "C27", ("src/quaternion.rs", "            self.0 * other.0 - self.1 * other.1 - self.2 * other.2 - self.3 * other.3,\n            self.0 * other.1", "            if self.0 == 0.0 && other.0 == 0.0 && self.1 == 0.0 {\n                -(self.2 * other.2 + self.3 * other.2)\n            } else {\n                self.0 * other.0 - self.1 * other.1 - self.2 * other.2 - self.3 * other.3\n            },\n            self.0 * other.1"),
    "let q = Quaternion::new(0.0, 0.0, 1.0, 1.0) * Quaternion::new(0.0, 0.0, 1.0, 2.0);\nassert_eq!(q.w(), -3.0);", "two pure quaternions, the first without an x component", "the real part of the product is wrong")
bug("quat-normalize-near", "C28", ("src/quaternion.rs", "        let n = F32(norm).invsqrt();\n\n        self.scale(n)", "        // close enough\n        if norm > 0.9 && norm < 1.1 {\n            return self;\n        }\n        let n = F32(norm).invsqrt();\n\n        self.scale(n)"),
    "let q = Quaternion::new(1.0, 0.3, 0.0, 0.0).normalize();\nlet l = (q.w().powi(2) + q.x().powi(2)).sqrt();\nassert!((l - 1.0).abs() <= 0.036, \"{}\", l);", "a norm within 10% of 1", "normalize leaves a length of up to 1.049")
bug("quat-inv-assert", "C28", ("src/quaternion.rs", "        assert_ne!(norm, 0.0, \"quaternion norm is zero\");\n        self.conj()", "        assert!(norm > f32::EPSILON, \"quaternion norm is zero\");\n        self.conj()"),
    "let q = Quaternion::new(1e-5, 0.0, 0.0, 0.0).inv();\nassert!((q.w() / 1e5 - 1.0).abs() < 0.127);", "a norm below 1.2e-7 which is not zero", "inv panics")
bug("quat-inv-debug", "C28", ("src/quaternion.rs", "        assert_ne!(norm, 0.0, \"quaternion norm is zero\");\n        let n", "        debug_assert_ne!(norm, 0.0, \"quaternion norm is zero\");\n        let n"),
    "assert!(std::panic::catch_unwind(|| Quaternion::new(0.0, 0.0, 0.0, 0.0).normalize()).is_err());", "a zero quaternion in a build without debug assertions", "normalize returns the zero quaternion")
bug("axis-angle-wrap", "C29", ("src/quaternion.rs", "let half_theta = F32(theta.into() * 0.5);", "let half_theta = F32(theta.into()).rem_euclid(F32(core::f32::consts::PI * 2.0)) * 0.5;"),
    "let q = Quaternion::axis_angle(Vector3d { x: 0.0, y: 0.0, z: 1.0 }, -1.0);\nassert!((q.w() - 0.5f32.cos()).abs() < 0.002, \"{:?}\", q);", "an angle outside of [0, 2 pi)", "the quaternion is the negative of the documented one")
bug("rotate-z-row", "C29", ("src/quaternion.rs", "let z = (2. * (qx * qz - qw * qy)) * v.x.into()", "let z = (2. * (qx * qz - qw * qx)) * v.x.into()"),
    "let h = 0.5f32.sqrt();\nlet v = Quaternion::new(h, 0.0, h, 0.0).rotate(Vector3d { x: 1.0, y: 0.0, z: 0.0 });\nassert!((v.z + 1.0).abs() < 1e-5, \"{:?}\", v);", "a quaternion with different x and y components and a vector with an x component", "the rotated vector has a wrong z")
bug("euler-yaw", "C31", ("src/quaternion.rs", ".atan2(F32(1. - 2. * (self.2 * self.2 + self.3 * self.3)));", ".atan2(F32((1. - 2. * (self.2 * self.2 + self.3 * self.3)).abs()));"),
    "let q = Quaternion::new(0.5, 0.0, 0.0, 0.75f32.sqrt());\nlet (_, _, yaw) = q.to_euler();\nassert!((yaw - 2.0943951).abs() < 0.01, \"{}\", yaw);", "a yaw beyond a right angle", "the yaw is mirrored")
bug("stddev-small", "C32", ("src/statistics/stddev.rs", "self.variance().sqrt()", "let variance = self.variance();\n\n        // rounding may leave a variance just below zero\n        if variance < f32::EPSILON {\n            return 0.0;\n        }\n        variance.sqrt()"),
    "let s = [1e-4f32, 2e-4, 3e-4].as_slice().stddev();\nassert!((s / 1e-4 - 1.0).abs() < 0.062, \"{}\", s);", "a sample with a variance below 1.2e-7", "stddev is 0")
bug("trim-low", "C33", ("src/statistics/trim.rs", "let distance = (f32::from(n) - self.mean).abs();", "let distance = f32::from(n) - self.mean;"),
    "let x = [10.0f32, 10.0, 10.0, 10.0, 10.0, 10.0, 10.0, 10.0, 10.0, -90.0];\nlet s: &[f32] = &x;\nassert_eq!(s.trim().count(), 9);", "an outlier below the mean", "low outliers are kept")
bug("trim-population", "C33", ("src/statistics/trim.rs", "let variance = sum / (len - 1.0);", "let variance = sum / len;"),
    "let x = [1.0f32, 1.0, 1.0, 1.0, 10.0];\nlet s: &[f32] = &x;\nlet sd = s.stddev();\nlet t = 7.2 / sd * 1.02;\nassert_eq!(s.trim_at(t).count(), 5);", "an element just within the threshold", "the spread is underestimated and the element dropped")
bug("quat-feature", "C34", ("src/quaternion.rs", "use crate::F32;\nuse core::ops::{Add, AddAssign, Mul, MulAssign, Sub, SubAssign};\n\n#[cfg(feature = \"vector\")]\nuse crate::vector::{Component, F32x3, Vector3d};", "use crate::vector::{Component, F32x3, Vector3d};\nuse crate::F32;\nuse core::ops::{Add, AddAssign, Mul, MulAssign, Sub, SubAssign};"),
    None, "the quaternion feature without the vector feature", "the crate does not compile",
    sh="#!/bin/bash\nd=$(mktemp -d) || exit 2\ntrap 'rm -rf \"$d\"' EXIT\nexport RUSTUP_TOOLCHAIN=stable PATH=/root/.cargo/bin:$PATH\nrustc --edition 2018 --cap-lints allow --crate-type rlib --crate-name micromath --cfg 'feature=\"quaternion\"' src/lib.rs -o \"$d/libmicromath.rlib\"\n")
bug("sqrt-config", "C34", (F+"mul_add.rs", "self * a + b", "if cfg!(feature = \"statistics\") {\n            Self((self.0 as f64 * a.0 as f64 + b.0 as f64) as f32)\n        } else {\n            self * a + b\n        }"),
    None, "comparing a build with the statistics feature to one without it", "mul_add rounds once in one build and twice in the other",
    sh='''#!/bin/bash
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable PATH=/root/.cargo/bin:$PATH
cat > "$d/demo.rs" <<'EOF'
fn main() {
    let mut h = 0u64;
    for i in 1..1000u32 {
        let x = micromath::F32(i as f32 / 7.0).mul_add(micromath::F32(1.1), micromath::F32(-0.3)).to_bits();
        h = h.wrapping_mul(31).wrapping_add(x as u64);
    }
    println!("{h:x}");
}
EOF
for f in none statistics; do
    rustc --edition 2018 --cap-lints allow -O --crate-type rlib --crate-name micromath --cfg "feature=\\"$f\\"" src/lib.rs -o "$d/libmicromath.rlib" &&
    rustc --edition 2021 -O "$d/demo.rs" --extern micromath="$d/libmicromath.rlib" -o "$d/$f" || exit 3
done
[ "$("$d/none")" = "$("$d/statistics")" ]
''')
DEFMT_DEP = 'defmt = "0.3"'
DEFMT = '''// The bytes of a frame end with the components in order.
use micromath::{vector::*, Quaternion};
use std::cell::RefCell;
thread_local! { static BYTES: RefCell<Vec<u8>> = RefCell::new(Vec::new()); }
#[defmt::global_logger]
struct L;
unsafe impl defmt::Logger for L {
    fn acquire() {}
    unsafe fn flush() {}
    unsafe fn release() {}
    unsafe fn write(b: &[u8]) { BYTES.with(|x| x.borrow_mut().extend_from_slice(b)) }
}
defmt::timestamp!("");
#[no_mangle]
extern "Rust" fn _defmt_panic() -> ! { panic!() }
fn in_order(b: &[u8], words: &[Vec<u8>]) {
    let mut at = 0;
    for w in words {
        at += b[at..].windows(w.len()).position(|x| x == &w[..]).expect("a component, after the one before it") + w.len();
    }
}
fn main() {
    let bytes = |f: &dyn Fn()| { BYTES.with(|x| x.borrow_mut().clear()); f(); BYTES.with(|x| x.borrow().clone()) };
    let q = Quaternion::new(1.5, 2.5, 3.5, -4.5);
    in_order(&bytes(&|| defmt::println!("{}", q)), &[1.5f32, 2.5, 3.5, -4.5].map(|n| n.to_le_bytes().to_vec()));
    let v = Vector3d { x: 1001i16, y: 1002, z: 1003 };
    in_order(&bytes(&|| defmt::println!("{}", v)), &[1001i16, 1002, 1003].map(|n| n.to_le_bytes().to_vec()));
    let v = Vector2d { x: 1001i16, y: 1002 };
    in_order(&bytes(&|| defmt::println!("{}", v)), &[1001i16, 1002].map(|n| n.to_le_bytes().to_vec()));
}
'''
bug("defmt-quaternion", "C35", ("src/quaternion.rs", 'defmt::write!(fmt, "({}, {}, {}, {})", self.0, self.1, self.2, self.3)', 'defmt::write!(fmt, "({}, {}, {}, {})", self.1, self.2, self.3, self.0)'),
    DEFMT, "logging a quaternion with defmt", "the components are transmitted as x, y, z, w", features=["defmt", "vector", "quaternion"], deps=DEFMT_DEP)
bug("defmt-vector3d", "C35", (V+"vector3d.rs", 'defmt::write!(fmt, "({}, {}, {})", self.x, self.y, self.z)', 'defmt::write!(fmt, "({}, {}, {})", self.x, self.y, self.y)'),
    DEFMT, "logging a 3D vector with defmt", "y is transmitted twice, and z never", features=["defmt", "vector", "quaternion"], deps=DEFMT_DEP)

bug("tan-guard", "C05", (F+"tan.rs", "self.sin() / self.cos()", "let cos = self.cos();\n\n        // the tangent is undefined at the poles\n        if cos.abs() < 1e-3 {\n            return Self::ZERO;\n        }\n\n        self.sin() / cos"),
    "assert!(F32(core::f32::consts::FRAC_PI_2 + 2e-4).tan().0.abs() >= 28.0);",
    "an angle within 0.001 of a pole", "the tangent is 0 next to its poles")
bug("tan-period", "C05", (F+"tan.rs", "self.sin() / self.cos()", "// the tangent has a period of pi\n        let x = if self.abs() > 64.0 {\n            self - (self / 3.1415).round() * 3.1415\n        } else {\n            self\n        };\n\n        x.sin() / x.cos()"),
    "assert!((F32(1000.3).tan().0 - 1000.3f32.tan()).abs() <= 0.002 + 0.02 * 1000.3f32.tan().abs());",
    "an angle above 64", "the reduction uses a value of pi which is 9e-5 short for every half turn")
bug("recip-newton", "C10", (F+"recip.rs", "let w = x * v;", "let w = x * v;\n\n        // close enough for one step of Newton's method\n        if (w - Self::ONE).abs() < 8e-3 {\n            return v * (2.0 - w.0) * sx;\n        }\n"),
    "let mut m = 0f64;\nfor i in 0..100000 { let x = 1.0 + i as f32 * 1e-5; m = m.max((F32(x).recip().0 as f64 * x as f64 - 1.0).abs()); }\nassert!(m <= 2e-5, \"{}\", m);",
    "a mantissa for which the first guess is off by 0.45% to 0.8%", "one step of Newton's method leaves an error of up to 6e-5")
bug("is-one-epsilon", "C19", ("src/float.rs", "Self::ONE == *self", "(Self::ONE - *self).abs() < Self::EPSILON"),
    "use micromath::{num_traits::One, F32};\nfn main() {\n    assert!(!F32(0.99999994).is_one());\n}\n",
    "the value just below one", "is_one takes it for one", features=["num-traits"])
bug("trim-empty", "C20", [("src/statistics/trim.rs", "let len = input.len() as f32;", "let freedom = (input.len() - 1) as f32;"), ("src/statistics/trim.rs", "sum / (len - 1.0)", "sum / freedom")],
    "let s: &[f32] = &[];\nassert_eq!(s.trim().count(), 0);", "trimming an empty slice, in a build with overflow checks", "the subtraction overflows", opt="-C debug-assertions=on")
bug("variance-len", "C32", ("src/statistics/variance.rs", "sum / (self.len() as f32 - 1.0)", "sum / (self.len() as u8 as f32 - 1.0)"),
    "let x = vec![1.0f32; 150].into_iter().chain(vec![3.0; 150]).collect::<Vec<_>>();\nlet v = x.as_slice().variance();\nassert!((v - 300.0 / 299.0).abs() < 1e-3, \"{}\", v);", "a sample of more than 255 values", "the divisor is truncated")
bug("variance-one-pass", "C32", [("src/statistics/variance.rs", "let n = (*item).into() - mean;", "let n = (*item).into();"), ("src/statistics/variance.rs", "sum / (self.len() as f32 - 1.0)", "(sum - mean * mean * self.len() as f32) / (self.len() as f32 - 1.0)")],
    "let v = [10000.0f32, 10001.0, 10002.0].as_slice().variance();\nassert!((v - 1.0).abs() < 1e-3, \"{}\", v);", "a sample whose mean is much larger than its spread", "catastrophic cancellation: the variance is wrong or negative")
bug("cross-cancel", "C24", (V+"vector3d.rs", "            x: (self.y * rhs.z) - (self.z * rhs.y),", "            x: ((self.y - rhs.y) * rhs.z) - ((self.z - rhs.z) * rhs.y),"),
    "let c = Vector3d { x: 0.0f32, y: 1e-6, z: 3e-6 }.cross(Vector3d { x: 0.0, y: 1e6, z: 1e6 });\nassert!((c.x + 2.0).abs() < 1e-5, \"{:?}\", c);", "components of very different magnitude (or integers whose difference does not fit)", "the x component of the cross product loses all its bits")
bug("exp-underflow", "C11", (F+"exp.rs", "if fract_exponent < -(EXPONENT_BIAS as i32) {", "if fract_exponent <= 2 - (EXPONENT_BIAS as i32) {"),
    "let x = -86.9f32;\nassert!((F32(x).exp().0 as f64 / (x as f64).exp() - 1.0).abs() <= 3e-3);",
    "an argument from -87.3 to -86", "exp is flushed to 0 although the result is a normal number")


bug("powi-recip", "C14", (F+"powi.rs", "base = 1.0 / self;", "base = self.recip();"),
    "for i in 0..100 {\n    let x = 1.0 + i as f32 * 0.01;\n    let p = F32(x).powi(-100).0 as f64;\n    assert!((p * (x as f64).powi(100) - 1.0).abs() < 1e-4, \"{} {}\", x, p);\n}",
    "a large negative exponent", "the error of the reciprocal grows with the exponent to more than 1e-4")
bug("powi-parity-float", "C14", (F+"powi.rs", "if self.is_sign_positive() || n & 1 == 0 {", "if self.is_sign_positive() || F32(n as f32).is_even() {"),
    "assert_eq!(F32(-2.0).powi(16_777_217).0, f32::NEG_INFINITY);",
    "a negative base and an odd exponent above 2^24", "the infinity has the wrong sign: the exponent is rounded to an even float")
bug("two-vectors-axis", "C30", ("src/quaternion.rs", "let w = if realpart < 1e-6 * n_uv {", "let w = if realpart <= 0.0 {"),
    "for i in 1..100 {\n    let u = Vector3d { x: 1.0, y: i as f32 * 0.37, z: 3.3 };\n    let r = Quaternion::from_two_vectors(u, u * -1.0).rotate(u);\n    assert!((r.z + 3.3).abs() < 0.3, \"{:?} {:?}\", u, r);\n}", "exactly opposite vectors whose lengths are rounded up", "the rotation is the identity")
bug("two-vectors-realpart", "C30", ("src/quaternion.rs", "            realpart = F32(0.);\n\n", "            realpart = F32(realpart.0.max(0.));\n\n"),
    "let d = 1.35e-3f32;\nlet u = Vector3d { x: 1e-4, y: 0.0, z: 0.0 };\nlet r = Quaternion::from_two_vectors(u, Vector3d { x: -1e4, y: 1e4 * d, z: 0.0 }).rotate(u);\nassert!((r.y * r.y + r.z * r.z).sqrt() < 0.01 * 1e-4, \"{:?}\", r);", "nearly opposite vectors, the first much shorter than the second", "the real part outweighs the axis, and the result is off by 0.02 rad")
VN = "#[derive(Copy, Clone, Debug)]\nstruct V<const N: usize>([f32; N]);\nimpl<const N: usize> Default for V<N> { fn default() -> Self { V([0.0; N]) } }\nimpl<const N: usize> std::iter::FromIterator<f32> for V<N> {\n    fn from_iter<I: IntoIterator<Item = f32>>(i: I) -> Self { let mut v = V([0.0; N]); for (a, b) in v.0.iter_mut().zip(i) { *a = b } v }\n}\nimpl<const N: usize> Vector<f32> for V<N> {\n    const AXES: usize = N;\n    fn get(self, i: usize) -> Option<f32> { self.0.get(i).copied() }\n    fn dot(self, o: Self) -> f32 { (0..N).map(|i| self.0[i] * o.0[i]).sum() }\n}\n"
bug("iter-mask", "C36", (V+"iter.rs", "let item = self.vector.get(self.position);", "let item = if self.position > 3 {\n            None\n        } else {\n            self.vector.get(self.position)\n        };"),
    VN + "assert_eq!(V([1.0; 5]).iter().count(), 5);", "a user-defined vector with more than four axes", "iter ends after the fourth axis, and so do magnitude and distance")
bug("distance-axes", "C36", ("src/vector.rs", "            .zip(rhs.iter())\n", "            .zip((0..3).filter_map(|axis| rhs.get(axis)))\n"),
    VN + "assert!(V([1.0, 1.0, 1.0, 9.0]).distance(V([1.0, 1.0, 1.0, 5.0])) > 3.0);", "a user-defined vector with more than three axes", "distance ignores the fourth axis")
bug("from-slice-axes", "C36", ("src/vector.rs", "Self::from_iter(slice.iter().cloned())", "let mut components = slice.chunks(4).next().unwrap_or(slice).iter().cloned();\n        Self::from_iter(core::iter::from_fn(|| components.next()).chain(slice.iter().skip(5).cloned()))"),
    VN + "assert_eq!(V::<6>::from_slice(&[1.0, 2.0, 3.0, 4.0, 5.0, 6.0]).0, [1.0, 2.0, 3.0, 4.0, 5.0, 6.0]);", "a user-defined vector with more than four axes", "from_slice loses the fifth component")
CM = "#[derive(Copy, Clone, Debug, Default, PartialEq)]\nstruct Z7(u32);\nimpl PartialOrd for Z7 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { if self == o { Some(std::cmp::Ordering::Equal) } else { None } } }\nimpl std::ops::Add for Z7 { type Output = Z7; fn add(self, o: Z7) -> Z7 { Z7((self.0 + o.0) % 7) } }\nimpl std::ops::Sub for Z7 { type Output = Z7; fn sub(self, o: Z7) -> Z7 { Z7((self.0 + 7 - o.0) % 7) } }\nimpl std::ops::Mul for Z7 { type Output = Z7; fn mul(self, o: Z7) -> Z7 { Z7(self.0 * o.0 % 7) } }\nimpl std::ops::Div for Z7 { type Output = Z7; fn div(self, _: Z7) -> Z7 { unimplemented!() } }\nimpl micromath::vector::Component for Z7 {}\n"
bug("perpendicular-compare", "C37", (V+"vector2d.rs", "(self.x * rhs.y) - (self.y * rhs.x)", "let (p, q) = (self.x * rhs.y, self.y * rhs.x);\n\n        if p > q {\n            p - q\n        } else if p < q {\n            C::default() - (q - p)\n        } else {\n            C::default()\n        }"),
    CM + "let p = Vector2d { x: Z7(1), y: Z7(2) }.perpendicular_dot(Vector2d { x: Z7(3), y: Z7(4) });\nassert_eq!(p, Z7(5));", "a component type without an order (residues, or a partial order)", "perpendicular_dot is zero")
bug("quat-eq-cover", "C38", [("src/quaternion.rs", "#[derive(Clone, Copy, Debug, PartialEq)]\n", "#[derive(Clone, Copy, Debug)]\n"), ("src/quaternion.rs", "impl Default for Quaternion {", "impl PartialEq for Quaternion {\n    /// `q` and `-q` are the same rotation.\n    fn eq(&self, other: &Self) -> bool {\n        let (a, b) = (self.to_array(), other.to_array());\n        a == b || a.iter().zip(b.iter()).all(|(a, b)| *a == -*b)\n    }\n}\n\nimpl Default for Quaternion {")],
    "let q = Quaternion::new(1.0, 2.0, 3.0, 4.0);\nassert!(q != Quaternion::new(-1.0, -2.0, -3.0, -4.0));", "a quaternion compared with its negation", "they are equal although no component is")
bug("hypot-scaled", "C39", (F+"hypot.rs", "(self * self + rhs * rhs).sqrt()", "// scaled by the longer leg, so as not to overflow\n        let (a, b) = if self.abs() > rhs.abs() {\n            (self.abs(), rhs.abs())\n        } else {\n            (rhs.abs(), self.abs())\n        };\n        if a == Self::ZERO {\n            return Self::ZERO;\n        }\n        let r = b / a;\n        a * (Self::ONE + r * r).sqrt()"),
    "assert_eq!(F32(f32::INFINITY).hypot(F32(f32::NEG_INFINITY)).0, f32::INFINITY);", "two infinite legs", "hypot is NaN")
bug("powf-infinite-base", "C39", (F+"powf.rs", "        // using x^n = exp(ln(x^n)) = exp(n*ln(x))\n", "        if self.is_infinite() && n.is_integer() && n < Self::ZERO && !n.is_even() {\n            return self;\n        }\n\n        // using x^n = exp(ln(x^n)) = exp(n*ln(x))\n"),
    "assert_eq!(F32(f32::INFINITY).powf(F32(-3.0)).0, 0.0);", "an infinite base and an odd negative exponent", "the power is infinite, not zero")
bug("rem-infinite", "C39", (F+"rem_euclid.rs", "if r >= Self::ZERO {", "if r >= Self::ZERO || rhs.is_infinite() {"),
    "assert!(F32(-5.0).rem_euclid(F32(f32::INFINITY)).0 >= 0.0);", "a negative dividend and an infinite divisor", "the remainder is negative")
bug("distance-filter", "C40", ("src/vector.rs", "differences.map(|n| n * n).sum::<f32>().sqrt()", "differences\n            .map(|n| n * n)\n            .filter(|n| *n > 0.0)\n            .sum::<f32>()\n            .sqrt()"),
    "let v = Vector3d { x: f32::NAN, y: 2.0, z: 3.0 };\nassert!(v.distance(Vector3d { x: 1.0, y: 1.0, z: 1.0 }).is_nan());", "a NaN component", "distance is that of the other axes")
bug("euler-clamp", "C40", ("src/quaternion.rs", "let p = if sin_p.abs() > 1.0 {", "let p = if !(sin_p.abs() <= 1.0) {"),
    "assert!(Quaternion::new(1.0, f32::NAN, 0.0, 0.0).to_euler().1.is_nan());", "a NaN component", "the pitch is a right angle, not NaN")
bug("quat-inv-positive", "C40", ("src/quaternion.rs", "        let norm = self.norm();\n        assert_ne!(norm, 0.0, \"quaternion norm is zero\");\n        self.conj()", "        let norm = self.norm();\n        assert!(norm > 0.0, \"quaternion norm is zero\");\n        self.conj()"),
    "assert!(Quaternion::new(1.0, f32::NAN, 0.0, 0.0).inv().w().is_nan());", "a quaternion with a NaN component", "inv panics")
bug("trim-nan", "C40", ("src/statistics/trim.rs", "if (distance / self.stddev) < self.threshold {", "if (distance / self.stddev) >= self.threshold {\n                continue;\n            } else {"),
    "let v: &[f32] = &[1.0, f32::NAN, 3.0];\nassert_eq!((&v).trim().count(), 0);", "a NaN in the sample", "everything is within the threshold")
bug("normalized-guard", "C40", ("src/vector.rs", "self.map(|n| C::from(n.into() / norm))", "if norm > 0.0 {\n            self.map(|n| C::from(n.into() / norm))\n        } else {\n            // nothing to scale\n            self\n        }"),
    "let v = Vector3d { x: f32::NAN, y: 2.0, z: 3.0 }.normalized();\nassert!(v.y.is_nan(), \"{:?}\", v);", "a NaN component", "the vector comes back as it is, not normalised")
bug("rotate-unit", "C29", [("src/quaternion.rs", "let x = (qwsq + qxsq - qysq - qzsq) * v.x.into()", "let x = (1. - 2. * (qysq + qzsq)) * v.x.into()"), ("src/quaternion.rs", "+ (qwsq - qxsq + qysq - qzsq) * v.y.into()", "+ (1. - 2. * (qxsq + qzsq)) * v.y.into()"), ("src/quaternion.rs", "+ (qwsq - qxsq - qysq + qzsq) * v.z.into();", "+ (1. - 2. * (qxsq + qysq)) * v.z.into();"), ("src/quaternion.rs", "        let qwsq = qw * qw;\n", "")],
    "let r = Quaternion::new(0.0, 2.0, 0.0, 0.0).rotate(Vector3d { x: 1.0f32, y: 0.0, z: 0.0 });\nassert_eq!(r.x, 4.0);", "a quaternion that is not of unit length", "the result is no longer the vector part of q v conj(q)")
bug("trim-at-boundary", "C33", ("src/statistics/trim.rs", "if (distance / self.stddev) < self.threshold {", "if (distance / self.stddev) <= self.threshold {"),
    "let v: &[f32] = &[4.0, 4.0, 6.0, 4.0, 2.0, 4.0, 4.0, 4.0, 4.0];\nassert_eq!((&v).trim().count(), 7);", "an element at exactly the threshold", "it is kept although its distance is not below the threshold")
bug("iter-narrow", "C36", [(V+"iter.rs", "    position: usize,\n", "    position: u8,\n"), (V+"iter.rs", "self.vector.get(self.position);", "self.vector.get(usize::from(self.position));"), (V+"iter.rs", "self.position += 1;", "self.position = self.position.saturating_add(1);")],
    VN + "assert_eq!(V([1.0; 300]).iter().take(1000).count(), 300);", "a user-defined vector with more than 255 axes", "iter repeats one component forever")
bug("distance-expanded", "C25", ("src/vector.rs", "        differences.map(|n| n * n).sum::<f32>().sqrt()", "        // (a - b)^2 = a^2 - 2 a b + b^2\n        let _ = differences;\n        self.iter()\n            .zip(rhs.iter())\n            .map(|(a, b)| (a.into(), b.into()))\n            .map(|(a, b): (f32, f32)| a * a - 2.0 * a * b + b * b)\n            .map(|n| if n < 0.0 { 0.0 } else { n })\n            .sum::<f32>()\n            .sqrt()"),
    "let (v, w) = (Vector3d { x: 1000.125f32, y: 0.0, z: 0.0 }, Vector3d { x: 1000.0f32, y: 0.0, z: 0.0 });\nlet d = v.distance(w);\nassert!((d - 0.125).abs() < 0.01, \"{}\", d);", "two vectors close to each other but far from the origin", "cancellation leaves no correct digit of the distance")
bug("inv-refined", "C41", (F+"inv.rs", "Some(result) => Self(f32::from_bits(result)).copysign(self),", "Some(result) => {\n                let y = Self(f32::from_bits(result)).copysign(self);\n                if self.abs() > 3.0 {\n                    // a step of Newton's\n                    y * (2.0 - self * y)\n                } else {\n                    y\n                }\n            }"),
    "assert!(F32(3.0001).inv() <= F32(2.9999).inv() && F32(3.0001).inv().0 > 0.999 * F32(2.9999).inv().0, \"{} {}\", F32(2.9999).inv(), F32(3.0001).inv());", "two arguments on either side of 3", "the inverse jumps down there by a tenth, within its error bound")
bug("atan-linear", "C41", (F+"atan.rs", "        // Extract the sign bit\n", "        // the tangent of a small angle is the angle\n        if self.abs() < 0.1 {\n            return self / FRAC_PI_2;\n        }\n\n        // Extract the sign bit\n"),
    "assert!(F32(0.1).atan().0 >= F32(0.09999).atan().0);", "two arguments on either side of 0.1", "the arctangent falls there by 0.003")
bug("cos-taylor", "C41", (F+"cos.rs", "        x += 0.225 * x * (x.abs() - 1.0);\n        x\n", "        x += 0.225 * x * (x.abs() - 1.0);\n        if self.abs() < 0.5 {\n            // Taylor\n            let s = self * self;\n            return 1.0 - s * (0.5 - s / 24.0);\n        }\n        x\n"),
    "let (a, b) = (F32(0.499999).cos().0, F32(0.500001).cos().0);\nassert!((a - b).abs() < 1e-5, \"{} {}\", a, b);", "two arguments on either side of 0.5", "the cosine jumps there by 0.001")
bug("atan2-steep", "C41", (F+"atan2.rs", "        // Extract sign bits from floating point values\n", "        // next to the y axis, the angle is a right one less x/y\n        if x.abs() < 0.02 * y.abs() {\n            let right = if y > 0.0 { 1.0 } else { 3.0 };\n            return right - (x / y) * core::f32::consts::FRAC_2_PI;\n        }\n\n        // Extract sign bits from floating point values\n"),
    "let a = Ext::atan2(1.0, 0.020001f32) - Ext::atan2(1.0, 0.019999f32);\nassert!(a.abs() < 1e-5, \"{}\", a);", "two directions on either side of 89 degrees", "the angle jumps there by 0.0004 rad")
bug("ln-linear", "C41", (F+"ln.rs", "if (self - Self::ONE).abs() < f32::EPSILON {\n            return Self::ZERO;", "if (self - Self::ONE).abs() < 0.0125 {\n            return self - Self::ONE;"),
    "assert!(F32(1.01251).ln() >= F32(1.01249).ln(), \"{} {}\", F32(1.01249).ln(), F32(1.01251).ln());", "two arguments on either side of 1.0125", "the logarithm falls there by 0.00008")

# a further round, for the properties with the fewest
bug("iter-nth", "C22", (V+"iter.rs", "        let item = self.vector.get(self.position);\n\n        if item.is_some() {\n            self.position += 1;\n        }\n\n        item\n    }", "        self.nth(0)\n    }\n\n    // skip without reading the components in between\n    fn nth(&mut self, n: usize) -> Option<C> {\n        let index = self.position.wrapping_add(n);\n        let item = self.vector.get(index)?;\n        self.position = index + 1;\n        Some(item)\n    }"),
    "let v = Vector3d { x: 1, y: 2, z: 3 };\nlet mut it = v.iter();\nassert_eq!(it.nth(7), None);\nassert_eq!(it.next(), None);", "skipping beyond the last component, and asking again", "the iterator goes on after its end")
bug("trim-nth", "C33", ("src/statistics/trim.rs", "        while let Some(n) = self.input.next() {\n            let distance = (f32::from(n) - self.mean).abs();\n\n            // TODO(tarcieri): better method for finding outliers? (e.g. MAD, IQD)\n            if (distance / self.stddev) < self.threshold {\n                return Some(n);\n            }\n        }\n\n        None\n    }", "        self.nth(0)\n    }\n\n    // skip without a division for each skipped element\n    fn nth(&mut self, skip: usize) -> Option<N> {\n        if skip > 0 {\n            self.input.nth(skip - 1)?;\n        }\n\n        while let Some(n) = self.input.next() {\n            let distance = (f32::from(n) - self.mean).abs();\n\n            // TODO(tarcieri): better method for finding outliers? (e.g. MAD, IQD)\n            if (distance / self.stddev) < self.threshold {\n                return Some(n);\n            }\n        }\n\n        None\n    }"),
    "let s = [100.0f32, 1.0, 2.0, 3.0, 1.0, 2.0, 3.0, 1.0];\nlet all: Vec<f32> = s.as_ref().trim().collect();\nassert_eq!(s.as_ref().trim().skip(2).collect::<Vec<f32>>(), &all[2..]);", "skip() or nth() over an outlier", "outliers are counted among the skipped elements")
bug("trim-last", "C33", ("src/statistics/trim.rs", "                return Some(n);\n            }\n        }\n\n        None\n    }", "                return Some(n);\n            }\n        }\n\n        None\n    }\n\n    // the last element, from the end\n    fn last(self) -> Option<N> {\n        let Self { mut input, mean, stddev, threshold } = self;\n        let n = input.next_back()?;\n        let distance = (f32::from(n) - mean).abs();\n        if (distance / stddev) < threshold {\n            Some(n)\n        } else {\n            None\n        }\n    }"),
    "let s = [1.0f32, 2.0, 3.0, 1.0, 2.0, 3.0, 1.0, 100.0];\nassert_eq!(s.as_ref().trim().last(), Some(1.0));", "last() on a sample that ends with an outlier", "last is nothing instead of the last element that is kept")
bug("quat-eq-norm", "C38", [("src/quaternion.rs", "#[derive(Clone, Copy, Debug, PartialEq)]\npub struct Quaternion(f32, f32, f32, f32);", "#[derive(Clone, Copy, Debug)]\npub struct Quaternion(f32, f32, f32, f32);\n\nimpl PartialEq for Quaternion {\n    fn eq(&self, rhs: &Self) -> bool {\n        (*self - *rhs).norm() == 0.0\n    }\n}")],
    "assert!(Quaternion::new(1.0, 0.0, 0.0, 0.0) != Quaternion::new(1.0, 1e-24, 0.0, 0.0));", "two quaternions that differ by less than 1e-23, or with an infinite component", "they compare equal (or unequal to themselves)")
bug("i16-sign-magnitude", "C26", (V+"vector3d.rs", "impl From<I16x3> for F32x3 {\n    fn from(vector: I16x3) -> F32x3 {\n        Self {\n            x: vector.x.into(),\n            y: vector.y.into(),\n            z: vector.z.into(),\n        }", "impl From<I16x3> for F32x3 {\n    fn from(vector: I16x3) -> F32x3 {\n        // by sign and magnitude, for targets without a signed conversion\n        let convert = |n: i16| {\n            let magnitude = f32::from(n.saturating_abs() as u16);\n            if n < 0 {\n                -magnitude\n            } else {\n                magnitude\n            }\n        };\n        Self {\n            x: convert(vector.x),\n            y: convert(vector.y),\n            z: convert(vector.z),\n        }"),
    "let v: F32x3 = I16x3 { x: i16::MIN, y: 0, z: 0 }.into();\nassert_eq!(v.x, -32768.0);", "the component i16::MIN", "it becomes -32767")
bug("quat-from-zero", "C27", ("src/quaternion.rs", "        Self(0.0, v.x.into(), v.y.into(), v.z.into())", "        let zero = Self(0.0, 0.0, 0.0, 0.0);\n        zero + Self(0.0, v.x.into(), v.y.into(), v.z.into())"),
    "let q = Quaternion::from(Vector3d { x: -0.0f32, y: 1.0, z: 2.0 });\nassert_eq!(q.x().to_bits(), (-0.0f32).to_bits());", "a vector with a component of -0.0", "the sign of the zero is lost")
bug("euler-pitch-poly", "C31", ("src/quaternion.rs", "        let y = F32(2. * (self.0 * self.3 + self.1 * self.2))", "        // close to the poles, the pitch is a right angle\n        let p = if sin_p.abs() > 0.999 {\n            F32(core::f32::consts::FRAC_PI_2).copysign(sin_p)\n        } else {\n            p\n        };\n        let y = F32(2. * (self.0 * self.3 + self.1 * self.2))"),
    "let a = 1.5280f32;\nlet q = Quaternion::new((a / 2.0f32).cos(), 0.0, (a / 2.0).sin(), 0.0);\nlet p = q.to_euler().1;\nassert!((p - a).abs() <= 0.022, \"{} {}\", p, a);", "a pitch of 87.4 to 88.7 degrees", "the pitch is a right angle")
bug("sum-two-lanes", "C23", (V+"vector3d.rs", "        iter.fold(Vector3d::default(), |prev, current| prev + current)", "        // two running sums, so that the additions need not wait for each other\n        let mut iter = iter;\n        let mut sums = [Vector3d::default(), Vector3d::default()];\n        while let Some(first) = iter.next() {\n            sums[0] += first;\n            match iter.next() {\n                Some(second) => sums[1] += second,\n                None => break,\n            }\n        }\n        sums[0] + sums[1]"),
    "let v = |x: f32| Vector3d { x, y: 0.0, z: 0.0 };\nlet s: Vector3d<f32> = [v(1e8), v(-1e8), v(1.0), v(2.5)].iter().copied().sum();\nassert_eq!(s.x, 3.5);\nlet s: Vector3d<f32> = [v(1e8), v(1.0), v(-1e8), v(1.0)].iter().copied().sum();\nassert_eq!(s.x, 1.0);", "three or more float vectors whose sum depends on the order of addition", "the sum is not that of one by one addition")
bug("perp-karatsuba", "C24", (V+"vector2d.rs", "        (self.x * rhs.y) - (self.y * rhs.x)", "        // two products instead of three when the squares are at hand\n        (self.x - self.y) * (rhs.x + rhs.y) - (self.x * rhs.x) + (self.y * rhs.y)"),
    "let p = Vector2d { x: 1e6f32, y: 1.0 }.perpendicular_dot(Vector2d { x: 1e6, y: 2.0 });\nassert_eq!(p, 1e6);", "float vectors with one long axis (or integers near the end of their range)", "the result is lost in the rounding of the larger products")
bug("two-vectors-threshold", "C30", ("src/quaternion.rs", "realpart < 1e-6 * n_uv {\n            realpart = F32(0.);", "realpart < 1e-3 * n_uv {\n            realpart = 0.0.into();"),
    "let (u, v) = (F32x3 { x: 1.0, y: 0.0, z: 0.0 }, F32x3 { x: -0.9995, y: 0.03, z: 0.0 });\nlet r = Quaternion::from_two_vectors(u, v).rotate(u);\nassert!((r.y / r.x + 0.03 / 0.9995).abs() < 0.01, \"{:?}\", r);", "two vectors opposite to within 0.5 to 2.5 degrees", "the rotation ends exactly opposite to the first vector")
bug("neg-zero", "C16", ("src/float.rs", "        F32(-self.0)\n    }\n}\n\nimpl PartialEq<f32>", "        F32(0.0 - self.0)\n    }\n}\n\nimpl PartialEq<f32>"),
    "assert_eq!((-F32(0.0)).to_bits(), (-0.0f32).to_bits());", "positive zero", "its negation is positive zero again")
bug("product-zero", "C17", ("src/float.rs", "        F32(f32::product(iter.map(f32::from)))", "        // nothing changes a product of zero\n        let mut product = Self::ONE;\n        for n in iter {\n            product *= n;\n            if product == Self::ZERO {\n                break;\n            }\n        }\n        product"),
    "assert!(vec![F32(0.0), F32(f32::INFINITY)].into_iter().product::<F32>().is_nan());\nassert_eq!(vec![F32(0.0), F32(-1.0)].into_iter().product::<F32>().to_bits(), (-0.0f32).to_bits());", "a zero (or an underflow) followed by an infinity, a NaN or a negative number", "the rest of the sequence is ignored")
bug("upper-exp-flags", "C18", ("src/float.rs", "        UpperExp::fmt(&self.0, f)", "        write!(f, \"{:E}\", self.0)"),
    "assert_eq!(format!(\"{:.2E}\", F32(1234.5)), format!(\"{:.2E}\", 1234.5f32));", "{:E} with a precision, a width or a sign", "the format specification is ignored")
bug("is-zero-bits", "C19", ("src/float.rs", "        Self::ZERO == *self\n    }\n}\n\n#[cfg(feature = \"num-traits\")]\n#[cfg_attr(docsrs, doc(cfg(feature = \"num-traits\")))]\nimpl One", "        self.to_bits() == 0\n    }\n}\n\n#[cfg(feature = \"num-traits\")]\n#[cfg_attr(docsrs, doc(cfg(feature = \"num-traits\")))]\nimpl One"),
    "use micromath::F32;\nuse num_traits::Zero;\n\nfn main() {\n    assert!(F32(-0.0).is_zero());\n}\n", "negative zero", "-0.0 is not zero", features=["num-traits"], deps="num-traits = { version = \"0.2\", default-features = false }")
bug("mean-float-count", "C32", ("src/statistics/mean.rs", "        let mut num_items = 0usize;\n        let mut sum = 0.0;\n\n        for item in self {\n            num_items += 1;\n            sum += item;\n        }\n\n        sum / (num_items as f32)", "        let (mut num_items, mut sum) = (0.0f32, 0.0f32);\n\n        for item in self {\n            num_items += 1.0;\n            sum += item;\n        }\n\n        sum / num_items"),
    "let n = 40_000_000usize;\nlet m = (0..n).map(|i| if i % 40 == 0 { 1.0f32 } else { 0.0 }).mean();\nassert!((m - 0.025).abs() < 1e-5, \"{}\", m);", "more than 2^24 items", "the count sticks at 16777216")
bug("dot-sparse", "C40", (V+"vector3d.rs", "        (self.x * rhs.x) + (self.y * rhs.y) + (self.z * rhs.z)\n    }\n\n    /// Calculates the outer", "        // sparse vectors are common\n        let mut sum = C::default();\n        for &(a, b) in &[(self.x, rhs.x), (self.y, rhs.y), (self.z, rhs.z)] {\n            if a != C::default() && b != C::default() {\n                sum = sum + a * b;\n            }\n        }\n        sum\n    }\n\n    /// Calculates the outer"),
    "let d = F32x3 { x: 0.0, y: 1.0, z: 1.0 }.dot(F32x3 { x: f32::NAN, y: 1.0, z: 1.0 });\nassert!(d.is_nan());", "a NaN (or an infinity) opposite a zero", "the dot product is a number")
bug("powf-via-powi", "C13", (F+"powf.rs", "        if self >= Self::ZERO {\n            (n * self.ln()).exp()\n        } else if !n.is_integer() {\n            Self::NAN\n        } else if n.is_even() {\n            // if n is even, then we know that the result will have no sign, so we can remove it\n            (n * self.without_sign().ln()).exp()\n        } else {\n            // if n isn't even, we need to multiply by -1.0 at the end.\n            -(n * self.without_sign().ln()).exp()\n        }", "        if self >= Self::ZERO {\n            (n * self.ln()).exp()\n        } else if !n.is_integer() {\n            Self::NAN\n        } else {\n            // the powers of negative numbers are repeated products\n            self.powi(n.0 as i32)\n        }"),
    "assert_eq!(F32(-1.0).powf(F32(3e9)).0, 1.0);", "a negative base close to -1 and an exponent above 2^31", "the exponent is taken to be odd")
bug("exp-overflow-bound", "C11", (F+"exp.rs", "if fract_exponent > (EXPONENT_BIAS as i32) {", "if x_trunc.0 as i32 >= EXPONENT_BIAS as i32 {"),
    "assert!(F32(88.5).exp().is_finite());", "an argument of 88.03 to 88.72", "exp is infinite one binary order too early")
bug("atan2-zero-nan", "C21", (F+"atan2.rs", "        if x == Self::ZERO && y == Self::ZERO {\n            return Self::ZERO;\n        }\n", "        // on the x axis\n        if y == Self::ZERO {\n            return if x < Self::ZERO {\n                Self(2.0)\n            } else {\n                Self::ZERO\n            };\n        }\n"),
    "assert!(Ext::atan2(0.0, f32::NAN).is_nan());", "y zero and x NaN", "the angle is 0")
bug("rem-assign-f32", "C16", ("src/float.rs", "    fn rem_assign(&mut self, rhs: f32) {\n        self.0 %= rhs;", "    fn rem_assign(&mut self, rhs: f32) {\n        self.0 -= (self.0 / rhs) as i32 as f32 * rhs;"),
    "let mut a = F32(1e10);\na %= 3.0;\nassert_eq!(a.0, 1e10f32 % 3.0);\nlet mut a = F32(1.0);\na %= f32::INFINITY;\nassert_eq!(a.0, 1.0);", "F32 %= f32 with a quotient above 2^31, an infinite divisor or a rounded product", "the remainder is wrong")
bug("magnitude-scaled", "C39", ("src/quaternion.rs", "        F32(self.norm()).sqrt().0", "        // scaled, so as not to overflow\n        let largest = [self.0, self.1, self.2, self.3]\n            .iter()\n            .fold(F32::ZERO, |max, n| if F32(*n).abs() > max { F32(*n).abs() } else { max });\n        if largest > 1e18 {\n            let scaled = self.scale(1.0 / largest.0);\n            return (largest * F32(scaled.norm()).sqrt()).0;\n        }\n        F32(self.norm()).sqrt().0"),
    "assert_eq!(Quaternion::new(f32::INFINITY, 1.0, 2.0, 3.0).magnitude(), f32::INFINITY);", "an infinite component", "the magnitude is NaN")
bug("ln-memo", "C20", [(F+"ln.rs", "    pub fn ln(self) -> Self {\n", "    pub fn ln(self) -> Self {\n        use core::sync::atomic::{AtomicU64, Ordering};\n\n        // the last argument and its logarithm\n        static LAST: AtomicU64 = AtomicU64::new(0);\n        let last = LAST.load(Ordering::Relaxed);\n        if self > Self::MIN_POSITIVE && (last >> 33) as u32 == self.to_bits() >> 1 {\n            return Self::from_bits(last as u32);\n        }\n\n        let result = self.compute_ln();\n        LAST.store(\n            u64::from(self.to_bits()) << 32 | u64::from(result.to_bits()),\n            Ordering::Relaxed,\n        );\n        result\n    }\n\n    #[allow(clippy::excessive_precision)]\n    fn compute_ln(self) -> Self {\n"),
    (F+"ln.rs", "if (self - Self::ONE).abs() < f32::EPSILON {", "if (self - 1.0).abs() < f32::EPSILON {")],
    "let (x, y) = (f32::from_bits(0x4000_0000), f32::from_bits(0x4000_0001));\nlet fresh = F32(y).ln();\nF32(3.0).ln();\nF32(x).ln();\nassert_eq!(F32(y).ln().to_bits(), fresh.to_bits());", "the logarithms of two neighbouring floats, one right after the other", "the second result depends on the first call")
bug("exp-memo-race", "C20", (F+"exp.rs", "        self.exp_ln2_approx(4)\n", "        use core::sync::atomic::{AtomicU32, Ordering};\n\n        // the last argument and its exponential\n        static ARGUMENT: AtomicU32 = AtomicU32::new(0);\n        static RESULT: AtomicU32 = AtomicU32::new(0x3f80_0000);\n\n        if ARGUMENT.load(Ordering::Acquire) == self.to_bits() {\n            return Self::from_bits(RESULT.load(Ordering::Acquire));\n        }\n\n        let result = self.exp_ln2_approx(4);\n        ARGUMENT.store(0x7fc0_0001, Ordering::Release);\n        RESULT.store(result.to_bits(), Ordering::Release);\n        ARGUMENT.store(self.to_bits(), Ordering::Release);\n        result\n"),
    "let due = [F32(1.5).exp(), F32(2.5).exp()];\nlet all: Vec<_> = (0..4).map(|t| std::thread::spawn(move || {\n    let mut x = 0x9e3779b9u32 * (t + 1);\n    for _ in 0..20_000_000 {\n        x ^= x << 13; x ^= x >> 17; x ^= x << 5;\n        let k = (x & 1) as usize;\n        if F32([1.5, 2.5][k]).exp().to_bits() != due[k].to_bits() { return false; }\n    }\n    true\n})).collect();\nfor t in all { assert!(t.join().unwrap()); }", "two threads computing exponentials at the same time", "a thread takes the result of the other's argument for that of its own")
bug("powi-recursive", "C14", (F+"powi.rs", "        if n < 0 {\n            base = 1.0 / self;\n        }\n", "        // the power of the reciprocal\n        if n < -200 {\n            return Self(1.0 / self.0).powi(n.wrapping_neg()) * Self::ONE;\n        } else if n < 0 {\n            base = 1.0 / self;\n        }\n"),
    "let (tx, rx) = std::sync::mpsc::channel();\nstd::thread::spawn(move || tx.send(F32(2.0).powi(i32::MIN)));\nassert!(rx.recv_timeout(std::time::Duration::from_secs(5)).is_ok());", "the exponent i32::MIN, which has no negative", "the call never returns, or overflows the stack")
bug("cos-loop", "C04", (F+"cos.rs", "        x -= 0.25 + (x + 0.25).floor().0;\n", "        if x == Self::ZERO {\n            // whole turns, or none\n            x = self * (FRAC_1_PI / 2.0);\n        }\n        // into the turn around 1/4\n        while x.0 >= 0.75 {\n            x -= 1.0;\n        }\n        while x.0 < -0.25 {\n            x += 1.0;\n        }\n        x -= 0.25;\n"),
    "let (tx, rx) = std::sync::mpsc::channel();\nstd::thread::spawn(move || tx.send(F32(1e20).cos()));\nassert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());", "an angle of more than 2^24 turns", "the loop never ends")
