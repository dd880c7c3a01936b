//! A program without the standard library: it only compiles when nothing below it links `std`,
//! which would bring a second panic handler.
#![no_std]

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

#[no_mangle]
pub extern "C" fn dot(x: i32) -> i32 {
    let v = vecmat::Vector::<i32, 3>::from([x, 2, 3]);
    v.dot(v)
}
