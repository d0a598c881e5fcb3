//! stand-in with the same behaviour, over std
pub mod sync {
    pub struct OnceCell<T>(std::sync::OnceLock<T>);
    impl<T> OnceCell<T> {
        pub const fn new() -> Self { OnceCell(std::sync::OnceLock::new()) }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T { self.0.get_or_init(f) }
        pub fn get(&self) -> Option<&T> { self.0.get() }
        pub fn set(&self, v: T) -> Result<(), T> { self.0.set(v) }
    }
}
