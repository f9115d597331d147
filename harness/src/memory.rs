//! Memory.

use std::io::Cursor;

use postscript::compact1::font_set::character_id_keyed;
use postscript::compact1::index::{CharacterStrings, Dictionaries, Names, Strings, Subroutines};
use postscript::type2::Program;
use postscript::compact1::{CharacterSet, Encoding, FontSet, Header, Index, Number, Offset, Operations};

use crate::sx::{allocated, assume, bytes, choose, split, u32};
use crate::util::*;
use crate::{check, harnesses, reach};

/// Far above what any data of these sizes are worth, and far below what they can claim to have.
const LIMIT: u64 = 16 << 20;

/// Use at most as much memory as the body does.
fn modestly(body: impl FnOnce() -> bool) {
    let before = allocated();
    let fine = body();
    let after = allocated();
    check!(after - before <= LIMIT, "C30 reading a few bytes takes a moderate amount of memory");
    if fine {
        reach!("accepted");
    } else {
        reach!("rejected");
    }
}

fn index<const N: usize>(kind: usize) {
    let b = bytes::<N>();
    inspect(kind, &b[..choose(N + 1)]);
}

fn inspect(kind: usize, b: &[u8]) {
    modestly(|| match kind {
        0 => read::<Index>(b).is_some(),
        1 => read::<Names>(b).is_some(),
        2 => read::<Dictionaries>(b).is_some(),
        3 => read::<Strings>(b).is_some(),
        4 => read::<Subroutines>(b).is_some(),
        _ => read_given::<CharacterStrings>(b, 2).is_some(),
    });
}

harnesses! {
    fn h_memory_index("C30", Both, ["accepted", "rejected"],
        "indices: all strings of 0 to 12 bytes")
    {
        index::<12>(0);
    }

    fn h_memory_index_kinds("C30", Both, ["accepted", "rejected"],
        "names, dictionaries, strings, subroutines, and character strings: all strings of 0 to 7 bytes")
    {
        index::<7>(1 + choose(5));
    }

    fn h_memory_index_large("C30", Both, ["accepted", "rejected"],
        "names, dictionaries, strings, subroutines, and character strings with one and two items of any claimed sizes, followed by 0 to 2 bytes")
    {
        let count = 1 + choose(2);
        let mut b = vec![0, count as u8, 4, 0, 0, 0, 1];
        for _ in 0..count {
            b.extend_from_slice(&bytes::<4>());
        }
        b.extend_from_slice(&bytes::<2>()[..choose(3)]);
        inspect(1 + choose(5), &b);
    }

    fn h_memory_tables("C30", Both, ["accepted", "rejected"],
        "headers, offsets, numbers other than real ones, dictionaries without real numbers, encodings, character sets of up to 70000 glyphs, selectors of up to 65535 glyphs: all strings of 0 to 5 bytes")
    {
        let b = bytes::<5>();
        let b = &b[..choose(6)];
        let count = u32();
        match choose(7) {
            0 => modestly(|| read::<Header>(b).is_some()),
            1 => modestly(|| read_given::<Offset>(b, count as u8).is_some()),
            2 => {
                assume(b.is_empty() || b[0] != 0x1e);
                modestly(|| read::<Number>(b).is_some())
            }
            3 => {
                let b = &b[..b.len().min(3)];
                for i in 0..b.len() {
                    assume(b[i] != 0x1e);
                }
                modestly(|| read::<Operations>(b).is_some())
            }
            4 => modestly(|| read::<Encoding>(b).is_some()),
            5 => {
                assume(count <= 70_000);
                modestly(|| read_given::<CharacterSet>(b, count as usize).is_some())
            }
            _ => {
                let strings = CharacterStrings(Index { count: count as u16, offset_size: 1, offsets: vec![], data: vec![] });
                modestly(|| read_given::<character_id_keyed::Encoding>(b, &strings).is_some())
            }
        }
    }

    fn h_memory_program("C30", Both, ["accepted", "rejected"],
        "any operator after 0 to 3 operands that are any fixed-point numbers or any integers, with 3 local and global subroutines")
    {
        modestly(crate::program::arbitrary_operands);
    }

    fn h_memory_program_subroutines("C30", Both, ["accepted", "rejected"],
        "programs of 0 to 2 bytes or a call with 65535 local and global subroutines")
    {
        let routines = vec![vec![]; 65535];
        let b = bytes::<2>();
        let b = match choose(4) {
            3 => vec![32, [10, 29][choose(2)]],
            n => b[..n].to_vec(),
        };
        modestly(|| {
            let mut program = Program::new(&b, &routines, &routines);
            (0..3).all(|_| program.next().is_ok())
        });
    }

    fn h_memory_font("C30", Both, ["accepted", "rejected"],
        "fonts of both kinds with any one of their operands being any 32-bit integer")
    {
        let id_keyed = choose(2) == 1;
        let which = choose(if id_keyed { 11 } else { 6 });
        let mut value = u32() as i32;
        if value >= 0 && value < 192 {
            value = split(value as u64) as i32;
        }
        let b = crate::font::odd(which, value, false, id_keyed);
        modestly(|| Cursor::new(&b[..]).take::<FontSet>().is_ok());
    }
}
