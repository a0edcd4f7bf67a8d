//! A program part for a machine without an operating system: no standard library and no allocator.
#![no_std]

#[allow(unused_imports)]
use micromath::F32Ext;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

#[no_mangle]
pub extern "C" fn bare(x: f32) -> f32 {
    x.sqrt() + x.sin().powi(3) + x.atan2(2.0)
}

#[no_mangle]
#[cfg(feature = "statistics")]
pub extern "C" fn bare_statistics(x: f32) -> f32 {
    use micromath::statistics::*;
    let v = [x, 1.0, 2.0];
    let s: &[f32] = &v;
    s.stddev() + s.iter().copied().mean() + s.trim().count() as f32
}

#[no_mangle]
#[cfg(feature = "vector")]
pub extern "C" fn bare_vector(x: f32) -> f32 {
    use micromath::vector::*;
    let v = F32x3 { x, y: 1.0, z: 2.0 };
    v.normalized().distance(v) + (v * v).magnitude() + v.iter().sum::<f32>()
}

#[no_mangle]
#[cfg(feature = "quaternion")]
pub extern "C" fn bare_quaternion(x: f32) -> f32 {
    let q = micromath::Quaternion::new(x, 1.0, 2.0, 3.0);
    (q * q.inv()).normalize().to_euler().0
}

#[no_mangle]
#[cfg(feature = "num-traits")]
pub extern "C" fn bare_num(x: f32) -> f32 {
    micromath::F32(x).inv().0
}
