//! Aborts when an operation does not come back
use std::sync::atomic::{AtomicU64, Ordering};
static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(300));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now != last {
                last = now;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() >= secs {
                eprintln!("no progress");
                std::process::abort();
            }
        }
    });
}
