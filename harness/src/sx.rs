//! The interface between the harnesses and whatever runs them: the symbolic executor, which
//! intercepts these functions, or the replayer, which implements them for one concrete input.

extern "C-unwind" {
    fn sx_bytes(pointer: *mut u8, count: u64);
    fn sx_assume(condition: bool);
    fn sx_check(condition: bool, id: u64, label: *const u8, length: u64);
    fn sx_reach(id: u64, label: *const u8, length: u64);
    fn sx_concretize(value: u64) -> u64;
    fn sx_observe(value: u64);
    fn sx_allocated() -> u64;
}

pub const fn hash(label: &str) -> u64 {
    let bytes = label.as_bytes();
    let mut value = 0xcbf29ce484222325u64;
    let mut i = 0;
    while i < bytes.len() {
        value ^= bytes[i] as u64;
        value = value.wrapping_mul(0x100000001b3);
        i += 1;
    }
    value >> 1
}

/// Obtain symbolic bytes.
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut value = [0; N];
    if N > 0 {
        unsafe { sx_bytes(value.as_mut_ptr(), N as u64) };
    }
    value
}

/// Obtain a symbolic byte.
#[inline(always)]
pub fn byte() -> u8 {
    bytes::<1>()[0]
}

#[inline(always)]
pub fn u16() -> u16 {
    u16::from_be_bytes(bytes::<2>())
}

#[inline(always)]
pub fn u32() -> u32 {
    u32::from_be_bytes(bytes::<4>())
}

/// Constrain what follows.
#[inline(always)]
pub fn assume(condition: bool) {
    unsafe { sx_assume(condition) }
}

/// Split the path by the value.
#[inline(always)]
pub fn split(value: u64) -> u64 {
    unsafe { sx_concretize(value) }
}

/// Obtain a choice out of a number of alternatives, which is concrete on each path.
#[inline(always)]
pub fn choose(count: usize) -> usize {
    if count <= 1 {
        return 0;
    }
    if count <= 256 {
        let value = byte();
        assume((value as usize) < count);
        split(value as u64) as usize
    } else {
        let value = u16();
        assume((value as usize) < count);
        split(value as u64) as usize
    }
}

/// Obtain a symbolic byte in a range.
#[inline(always)]
pub fn between(low: u8, high: u8) -> u8 {
    let value = byte();
    assume((value >= low) & (value <= high));
    value
}

#[inline(always)]
pub fn observe(value: u64) {
    unsafe { sx_observe(value) }
}

/// The sum of the sizes of the memory asked for so far.
#[inline(always)]
pub fn allocated() -> u64 {
    unsafe { sx_allocated() }
}

#[doc(hidden)]
#[inline(always)]
pub fn check(condition: bool, id: u64, label: &'static str) {
    unsafe { sx_check(condition, id, label.as_ptr(), label.len() as u64) }
}

#[doc(hidden)]
#[inline(always)]
pub fn reach(id: u64, label: &'static str) {
    unsafe { sx_reach(id, label.as_ptr(), label.len() as u64) }
}

/// State a property.
#[macro_export]
macro_rules! check {
    ($condition:expr, $label:expr) => {{
        const ID: u64 = $crate::sx::hash($label);
        $crate::sx::check($condition, ID, $label)
    }};
}

/// Witness that a point is reached.
#[macro_export]
macro_rules! reach {
    ($label:expr) => {{
        const ID: u64 = $crate::sx::hash($label);
        $crate::sx::reach(ID, $label)
    }};
}

/// The tier in which a harness runs.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tier {
    /// In both tiers.
    Both,
    /// In the quick tier only.
    Quick,
    /// In the thorough tier only.
    Thorough,
}

pub struct Harness {
    pub name: &'static str,
    pub property: &'static str,
    pub tier: Tier,
    pub bound: &'static str,
    pub reach: &'static [&'static str],
    pub body: extern "C-unwind" fn(),
}

/// Define harnesses: the property they serve, the tier, the labels that have to be reached for
/// the result not to be vacuous, and what the run covers.
#[macro_export]
macro_rules! harnesses {
    ($(fn $name:ident($property:literal, $tier:ident, [$($label:literal),* $(,)?], $bound:expr) $body:block)*) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name() $body
        )*
        pub const ALL: &[$crate::sx::Harness] = &[$(
            $crate::sx::Harness {
                name: stringify!($name),
                property: $property,
                tier: $crate::sx::Tier::$tier,
                bound: $bound,
                reach: &[$($label),*],
                body: $name,
            },
        )*];
    };
}
