//! Host-side `solana-msg`: program logs go to a thread-local sink (off by default).
use std::cell::{Cell, RefCell};

thread_local! {
    pub static ENABLED: Cell<bool> = const { Cell::new(false) };
    pub static LOGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

#[macro_export]
macro_rules! msg {
    ($msg:expr) => {
        $crate::sol_log($msg)
    };
    ($($arg:tt)*) => {
        if $crate::enabled() { $crate::sol_log(&format!($($arg)*)) }
    };
}

pub fn enabled() -> bool {
    ENABLED.with(|e| e.get())
}

pub fn sol_log(message: &str) {
    if enabled() {
        LOGS.with(|l| l.borrow_mut().push(message.to_string()));
    }
}
