//! Keys and values are dropped in one of the two executables only: containers of types without
//! `Drop` take different paths.

use crate::vals::{K, V};

impl Drop for K {
    fn drop(&mut self) {
        self.dropped();
    }
}

impl Drop for V {
    fn drop(&mut self) {
        self.dropped();
    }
}
