//! C35: what defmt transmits, decoded from the bytes that reach the logger.
//! `defmtcheck check C35`, `defmtcheck replay <file>`

use micromath::vector::{Component, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use mmv::engine::{self, random, Property, Src, R};
use mmv::gen::{f32_any, nan};
use mmv::vectors::Comp;
use mmv::{ensure, gen};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

// ---------------------------------------------------------------- the logger

thread_local! {
    static BYTES: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

#[defmt::global_logger]
struct Capture;

// Each thread has its own buffer: frames cannot interleave.
unsafe impl defmt::Logger for Capture {
    fn acquire() {}
    unsafe fn flush() {}
    unsafe fn release() {}
    unsafe fn write(b: &[u8]) {
        BYTES.with(|x| x.borrow_mut().extend_from_slice(b))
    }
}
defmt::timestamp!("");
#[no_mangle]
extern "Rust" fn _defmt_panic() -> ! {
    panic!("defmt::panic")
}

fn captured(f: impl FnOnce()) -> Vec<u8> {
    BYTES.with(|x| x.borrow_mut().clear());
    f();
    BYTES.with(|x| std::mem::take(&mut *x.borrow_mut()))
}

// ---------------------------------------------------------------- the decoder

/// Format strings by index, from the symbol table of this program.
fn strings() -> &'static HashMap<u16, String> {
    static S: OnceLock<HashMap<u16, String>> = OnceLock::new();
    S.get_or_init(|| {
        let elf = std::fs::read("/proc/self/exe").expect("read the program");
        let int = |at: usize, n: usize| -> u64 { (0..n).map(|i| (elf[at + i] as u64) << (8 * i)).sum() };
        let (shoff, shsize, shnum) = (int(0x28, 8) as usize, int(0x3a, 2) as usize, int(0x3c, 2) as usize);
        let mut map = HashMap::new();
        for i in 0..shnum {
            let sh = shoff + i * shsize;
            if int(sh + 4, 4) != 2 {
                continue; // not SHT_SYMTAB
            }
            let (off, size, link) = (int(sh + 0x18, 8) as usize, int(sh + 0x20, 8) as usize, int(sh + 0x28, 4) as usize);
            let names = int(shoff + link * shsize + 0x18, 8) as usize;
            for s in (off..off + size).step_by(24) {
                let name = names + int(s, 4) as usize;
                let end = name + elf[name..].iter().position(|b| *b == 0).unwrap();
                let name = String::from_utf8_lossy(&elf[name..end]);
                let Some(k) = name.find("\"data\":\"") else { continue };
                let data = name[k + 8..].split("\",\"disambiguator\"").next().unwrap().to_string();
                let old = map.insert(int(s + 8, 8) as u16, data.clone());
                assert!(old.is_none_or(|o| o == data), "two strings with one index");
            }
        }
        assert!(!map.is_empty(), "no format strings in the symbol table");
        map
    })
}

/// The rest of a frame.
struct Cur<'a>(&'a [u8]);

impl Cur<'_> {
    fn take<const N: usize>(&mut self) -> Result<[u8; N], String> {
        ensure!(self.0.len() >= N, "the frame ends early");
        let (a, b) = self.0.split_at(N);
        self.0 = b;
        Ok(a.try_into().unwrap())
    }
    fn index(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take()?))
    }
    fn string(&mut self, i: u16) -> Result<String, String> {
        let s = strings().get(&i).ok_or(format!("no format string with index {i:#x}"))?.clone();
        self.format(&s)
    }
    fn format(&mut self, f: &str) -> Result<String, String> {
        if f == "{=__internal_FormatSequence}" {
            let mut out = String::new();
            loop {
                match self.index()? {
                    0 => return Ok(out),
                    i => out += &self.string(i)?,
                }
            }
        }
        let mut out = String::new();
        let mut rest = f;
        while let Some(c) = rest.chars().next() {
            if let Some(r) = rest.strip_prefix("{{") {
                out.push('{');
                rest = r;
            } else if let Some(r) = rest.strip_prefix("}}") {
                out.push('}');
                rest = r;
            } else if c == '{' {
                let (spec, r) = rest[1..].split_once('}').ok_or("unbalanced format string")?;
                rest = r;
                let ty = spec.split(':').next().unwrap();
                out += &match ty {
                    "" | "=?" => {
                        let i = self.index()?;
                        self.string(i)?
                    }
                    "=f32" => show_f(f32::from_le_bytes(self.take()?)),
                    "=f64" => format!("f64:{:?}", f64::from_le_bytes(self.take()?)),
                    "=i8" => format!("i8:{}", i8::from_le_bytes(self.take()?)),
                    "=u8" => format!("u8:{}", u8::from_le_bytes(self.take()?)),
                    "=i16" => format!("i16:{}", i16::from_le_bytes(self.take()?)),
                    "=u16" => format!("u16:{}", u16::from_le_bytes(self.take()?)),
                    "=i32" => format!("i32:{}", i32::from_le_bytes(self.take()?)),
                    "=u32" => format!("u32:{}", u32::from_le_bytes(self.take()?)),
                    "=istr" => {
                        let i = self.index()?;
                        self.string(i)?
                    }
                    "=str" => {
                        let n = u32::from_le_bytes(self.take()?) as usize;
                        ensure!(self.0.len() >= n, "the frame ends early");
                        let (a, b) = self.0.split_at(n);
                        self.0 = b;
                        String::from_utf8_lossy(a).to_string()
                    }
                    t => return Err(format!("an argument of the unexpected type {t} in {f:?}")),
                };
            } else {
                out.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }
        Ok(out)
    }
}

fn decode(frame: &[u8]) -> Result<String, String> {
    let mut c = Cur(frame);
    let i = c.index()?;
    let r = c.string(i)?;
    ensure!(c.0.is_empty(), "{} bytes are left after {r:?}", c.0.len());
    Ok(r)
}

// ---------------------------------------------------------------- values

fn show_f(x: f32) -> String {
    format!("f32:{:08x}", x.to_bits())
}

/// A component with its defmt rendering.
trait Logged: Comp + Component + defmt::Format {
    fn shown(self) -> String;
}
macro_rules! logged {
    ($($t:ident)*) => { $( impl Logged for $t { fn shown(self) -> String { format!("{}:{}", stringify!($t), self) } } )* };
}
logged!(i8 u8 i16 u16 i32 u32);
impl Logged for f32 {
    fn shown(self) -> String {
        show_f(self)
    }
}
impl Logged for F32 {
    fn shown(self) -> String {
        show_f(self.0)
    }
}

fn expect(what: &str, bytes: &[u8], want: &str) -> R {
    let got = decode(bytes).map_err(|e| format!("{what}: {e}; frame {bytes:02x?}"))?;
    ensure!(got == want, "{what}: decoded {got:?}, expected {want:?}; frame {bytes:02x?}");
    Ok(())
}

fn float(s: &mut Src) -> f32 {
    if s.one_in(12) {
        nan(s)
    } else {
        f32_any(s)
    }
}

fn scalar(s: &mut Src) -> R {
    let x = float(s);
    s.desc(|| format!("F32({x:?}) bits {:08x}", x.to_bits()));
    s.nontrivial_if(x != 0.0);
    let b = captured(|| defmt::println!("{}", F32(x)));
    expect("{}", &b, &show_f(x))?;
    let b = captured(|| defmt::println!("{:?}", F32(x)));
    expect("{:?}", &b, &show_f(x))
}

fn vectors<C: Logged>(s: &mut Src) -> R {
    let (x, y, z) = (C::gen(s), C::gen(s), C::gen(s));
    s.desc(|| format!("{x:?}, {y:?}, {z:?}"));
    s.nontrivial_if(x.bits() != y.bits() && y.bits() != z.bits() && x.bits() != z.bits());
    s.label(C::NAME);
    let (xs, ys, zs) = (x.shown(), y.shown(), z.shown());
    let b = captured(|| defmt::println!("{}", Vector2d { x, y }));
    expect("2d", &b, &format!("({xs}, {ys})"))?;
    let b = captured(|| defmt::println!("{}", Vector3d { x, y, z }));
    expect("3d", &b, &format!("({xs}, {ys}, {zs})"))?;
    // several in one frame, and one value twice
    let b = captured(|| defmt::println!("{} a {} b {}", Vector3d { x: z, y: x, z: y }, Vector2d { x: y, y: x }, F32(1.5)));
    expect("several", &b, &format!("({zs}, {xs}, {ys}) a ({ys}, {xs}) b f32:3fc00000"))
}

fn quaternion(s: &mut Src) -> R {
    let a: [f32; 4] = std::array::from_fn(|_| float(s));
    s.desc(|| format!("{a:?}"));
    s.nontrivial_if((0..4).all(|i| (0..i).all(|j| a[i].to_bits() != a[j].to_bits())));
    let q = Quaternion::new(a[0], a[1], a[2], a[3]);
    let want = format!("({}, {}, {}, {})", show_f(a[0]), show_f(a[1]), show_f(a[2]), show_f(a[3]));
    let b = captured(|| defmt::println!("{}", q));
    expect("quaternion", &b, &want)?;
    let b = captured(|| defmt::println!("q={} then {=f32} then {}", q, a[1], F32(a[2])));
    expect("quaternion among others", &b, &format!("q={want} then {} then {}", show_f(a[1]), show_f(a[2])))
}

fn c35() -> Property {
    let _ = gen::dict();
    Property {
        id: "C35",
        rule: "Floats from the structured generator (NaNs with payloads included) and integers of every component type; frames with one and with three arguments, decoded from the bytes given to the logger and the strings in the program's symbol table; non-trivial: components that differ from each other (a scalar: not zero).",
        tasks: vec![
            random("F32", 2_000_000, scalar),
            random("vectors of f32", 400_000, vectors::<f32>),
            random("vectors of F32", 400_000, vectors::<F32>),
            random("vectors of i8", 200_000, vectors::<i8>),
            random("vectors of u8", 200_000, vectors::<u8>),
            random("vectors of i16", 200_000, vectors::<i16>),
            random("vectors of u16", 200_000, vectors::<u16>),
            random("vectors of i32", 200_000, vectors::<i32>),
            random("vectors of u32", 200_000, vectors::<u32>),
            random("quaternions", 800_000, quaternion),
        ],
        assumptions: &["frames are those of defmt 0.3.8 before its transport encoding"],
    }
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str());
    std::process::exit(engine::cli(&[("C35", c35)], arg(0), arg(1), arg(2)));
}
