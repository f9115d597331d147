//! Runs harnesses natively, against the real crate, on concrete inputs.
//!
//!     replay list                  print the registry as JSON
//!     replay run HARNESS HEX       run one harness on one input
//!     replay batch                 run lines `HARNESS HEX` and print what was observed
//!
//! Exit status of `run`: 0 nothing failed, 10 a check failed, 11 an assumption does not hold or
//! the input is too short, 12 a panic; anything else is a crash.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

#[derive(Default)]
struct State {
    input: Vec<u8>,
    position: usize,
    observed: Vec<u64>,
    failed: Vec<String>,
    batch: bool,
}

/// Counts what is asked for in the thread.
struct Counter;

thread_local!(static ALLOCATED: Cell<u64> = const { Cell::new(0) });

fn count(size: usize) {
    let _ = ALLOCATED.try_with(|value| value.set(value.get().saturating_add(size as u64)));
}

unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        count(layout.size());
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        count(layout.size());
        System.alloc_zeroed(layout)
    }

    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        count(size);
        System.realloc(pointer, layout, size)
    }

    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        System.dealloc(pointer, layout)
    }
}

#[global_allocator]
static COUNTER: Counter = Counter;

#[no_mangle]
extern "C-unwind" fn sx_allocated() -> u64 {
    ALLOCATED.with(|value| value.get())
}

thread_local!(static STATE: RefCell<State> = RefCell::new(State::default()));

struct Stop(i32);

#[no_mangle]
extern "C-unwind" fn sx_bytes(pointer: *mut u8, count: u64) {
    let short = STATE.with(|state| {
        let mut state = state.borrow_mut();
        for i in 0..count as usize {
            let Some(&value) = state.input.get(state.position) else { return true };
            state.position += 1;
            unsafe { *pointer.add(i) = value };
        }
        false
    });
    if short {
        std::panic::resume_unwind(Box::new(Stop(11)));
    }
}

#[no_mangle]
extern "C-unwind" fn sx_assume(condition: bool) {
    if !condition {
        std::panic::resume_unwind(Box::new(Stop(11)));
    }
}

#[no_mangle]
extern "C-unwind" fn sx_check(condition: bool, _: u64, label: *const u8, length: u64) {
    if !condition {
        let label = unsafe { std::slice::from_raw_parts(label, length as usize) };
        let label = String::from_utf8_lossy(label).into_owned();
        STATE.with(|state| {
            let mut state = state.borrow_mut();
            if !state.batch {
                println!("FAIL {label}");
            }
            state.failed.push(label);
        });
    }
}

#[no_mangle]
extern "C-unwind" fn sx_reach(_: u64, _: *const u8, _: u64) {}

#[no_mangle]
extern "C-unwind" fn sx_concretize(value: u64) -> u64 {
    value
}

#[no_mangle]
extern "C-unwind" fn sx_observe(value: u64) {
    STATE.with(|state| state.borrow_mut().observed.push(value));
}

fn decode(hex: &str) -> Vec<u8> {
    (0..hex.len() / 2)
        .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hexadecimal"))
        .collect()
}

fn find(name: &str) -> &'static harness::sx::Harness {
    harness::all()
        .find(|harness| harness.name == name)
        .expect("a known harness")
}

/// Run in a thread with the usual stack.
fn run(name: &str, input: Vec<u8>, batch: bool) -> (i32, State) {
    let body = find(name).body;
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            STATE.with(|state| {
                *state.borrow_mut() = State { input, batch, ..Default::default() };
            });
            let code = match std::panic::catch_unwind(|| body()) {
                Ok(()) => 0,
                Err(payload) => payload.downcast_ref::<Stop>().map_or(12, |stop| stop.0),
            };
            let state = STATE.with(|state| std::mem::take(&mut *state.borrow_mut()));
            let code = if !state.failed.is_empty() { 10 } else { code };
            (code, state)
        })
        .unwrap()
        .join()
        .unwrap()
}

fn quote(text: &str) -> String {
    format!("\"{}\"", text.replace('\\', "\\\\").replace('"', "\\\""))
}

fn main() {
    let arguments: Vec<String> = std::env::args().skip(1).collect();
    match arguments.first().map(|value| value.as_str()) {
        Some("list") => {
            let mut lines = vec![];
            for harness in harness::all() {
                let labels: Vec<_> = harness
                    .reach
                    .iter()
                    .map(|label| format!("[{}, {}]", quote(label), harness::sx::hash(label)))
                    .collect();
                lines.push(format!(
                    "{{\"name\": {}, \"property\": {}, \"tier\": {}, \"bound\": {}, \"reach\": [{}]}}",
                    quote(harness.name),
                    quote(harness.property),
                    quote(&format!("{:?}", harness.tier)),
                    quote(harness.bound),
                    labels.join(", "),
                ));
            }
            println!("[{}]", lines.join(",\n"));
        }
        Some("run") => {
            let input = decode(arguments.get(2).map_or("", |value| value));
            let (code, state) = run(&arguments[1], input, false);
            println!("OBSERVED {:?}", state.observed);
            std::process::exit(code);
        }
        Some("batch") => {
            std::panic::set_hook(Box::new(|_| {}));
            for line in std::io::stdin().lines() {
                let line = line.unwrap();
                let mut parts = line.split(' ');
                let name = parts.next().unwrap();
                let input = decode(parts.next().unwrap_or(""));
                let (code, state) = run(name, input, true);
                println!("{code} {:?}", state.observed);
            }
        }
        _ => panic!("expected a command"),
    }
}
