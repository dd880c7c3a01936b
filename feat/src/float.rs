//! The same calls for both float types.
pub mod f64_ {
    type F = f64;
    const NAME: &str = "f64";
    include!("float_body.rs");
}
pub mod f32_ {
    type F = f32;
    const NAME: &str = "f32";
    include!("float_body.rs");
}
