//! Offline stand-in for `default-env`.
#[macro_export]
macro_rules! default_env {
    ($k:expr, $d:expr) => {
        $d
    };
}
