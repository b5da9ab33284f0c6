pub use tested_fixture_derive::tested_fixture;
pub struct Lazy<T: 'static>(once_cell::sync::Lazy<&'static T>);
impl<T: 'static> Lazy<T> {
    pub const fn new(f: fn() -> &'static T) -> Self { Lazy(once_cell::sync::Lazy::new(f)) }
    pub fn force(l: &Self) -> &T { *l.0 }
}
impl<T: 'static> core::ops::Deref for Lazy<T> { type Target = &'static T; fn deref(&self) -> &&'static T { &self.0 } }
