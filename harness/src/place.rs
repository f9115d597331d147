//! Tables in various surroundings.

use std::io::Cursor;

use crate::fault::data;
use crate::font::odd;
use crate::sx::{assume, byte, bytes, choose, observe, split, u32};
use crate::view::{equal, take};
use crate::{check, harnesses, reach};

/// Keep what is arbitrary within reach.
fn bounded(kind: usize, b: &[u8]) {
    if kind == 1 || kind == 8 {
        assume((b[0] == 0) & (b[1] <= 1));
    }
    if kind == 2 || kind == 3 {
        // real numbers are costly
        for byte in b {
            assume(*byte != 0x1e);
        }
    }
    if kind == 3 {
        // as are dictionaries of many operations
        assume((b[0] == 28) | (b[0] == 29));
    }
}

/// Read from a position in a sequence of bytes.
fn at(data: &[u8], position: usize, kind: usize) -> Option<Vec<u64>> {
    let mut tape = Cursor::new(data);
    tape.set_position(position as u64);
    take(&mut tape, kind).ok()
}

/// Compare two results of reading the same.
fn compare(one: &Option<Vec<u64>>, other: &Option<Vec<u64>>) {
    match (one, other) {
        (Some(one), Some(other)) => {
            for value in one {
                observe(*value);
            }
            check!(equal(one, other), "C31 what is read does not depend on what is around it");
        }
        (None, None) => {}
        _ => check!(false, "C31 whether there is an error does not depend on what is around"),
    }
}

/// Something symbolic or something that looks like the beginning of a table, of a certain length.
fn junk(length: usize) -> Vec<u8> {
    let mut junk = vec![0xee; length];
    if length > 0 {
        junk[0] = byte();
        junk[length - 1] = byte();
    }
    junk
}

harnesses! {
    fn h_place("C31", Both, ["same", "rejected"],
        "each kind of table of any 5 bytes (dictionaries: starting with a 16-bit or 32-bit integer; no real numbers), on its own and after 1, 2, and 300 other bytes, the first and last of which are any")
    {
        let kind = choose(9);
        let b = bytes::<5>();
        bounded(kind, &b);
        let one = at(&b, 0, kind);
        let length = [1, 2, 300][choose(3)];
        let mut whole = junk(length);
        whole.extend_from_slice(&b);
        let other = at(&whole, length, kind);
        if one.is_some() {
            reach!("same");
        } else {
            reach!("rejected");
        }
        compare(&one, &other);
    }

    fn h_place_before("C31", Both, ["same"],
        "each kind of table of any 5 bytes that is well-formed (no dictionaries and real numbers), on its own and before 1, 3, and 300 other bytes, the first and last of which are any; whatever is not consumed is left out or replaced")
    {
        let kind = [0, 1, 2, 4, 5, 6, 7, 8][choose(8)];
        let b = bytes::<5>();
        bounded(kind, &b);
        if let Some(one) = at(&b, 0, kind) {
            reach!("same");
            let size = *one.last().unwrap() as usize;
            let mut whole = b[..size].to_vec();
            compare(&Some(one), &at(&whole, 0, kind));
            let one = at(&b, 0, kind);
            whole.extend_from_slice(&junk([1, 3, 300][choose(3)]));
            compare(&one, &at(&whole, 0, kind));
            // and nothing less will do
            for n in 0..size {
                check!(at(&b[..n], 0, kind).is_none(), "C31 a table that is cut short is an error");
            }
        }
    }

    fn h_place_sequence("C31", Both, ["same"],
        "two well-formed tables of each kind but dictionaries with symbolic contents, one after another, the second one being read first, last, or twice")
    {
        let kinds = [0, 1, 2, 4, 5, 6, 7, 8];
        let (first, second) = (kinds[choose(8)], kinds[choose(8)]);
        let one = data(first, &bytes::<6>());
        let other = data(second, &bytes::<6>());
        let (alone, apart) = (at(&one, 0, first), at(&other, 0, second));
        check!(alone.is_some() & apart.is_some(), "C31 well-formed tables are accepted");
        let mut whole = one.clone();
        whole.extend_from_slice(&other);
        let mut tape = Cursor::new(&whole[..]);
        match choose(3) {
            0 => {}
            1 => {
                tape.set_position(one.len() as u64);
                compare(&apart, &take(&mut tape, second).ok());
                tape.set_position(0);
            }
            _ => {
                compare(&alone, &take(&mut tape, first).ok());
                compare(&apart, &take(&mut tape, second).ok());
                tape.set_position(0);
            }
        }
        reach!("same");
        compare(&alone, &take(&mut tape, first).ok());
        compare(&apart, &take(&mut tape, second).ok());
    }

    fn h_place_font("C31", Both, ["same"],
        "font sets of both kinds with any one operand being any 32-bit integer or a real number, on their own and after 1 to 2 and 300 other bytes, the first and last of which are any, read once or twice")
    {
        let kind = 9 + choose(2);
        let value = u32() as i32;
        let value = if value >= 0 && value < 192 { split(value as u64) as i32 } else { value };
        let b = odd(choose([6, 11][kind - 9]), value, choose(2) == 1, kind == 10);
        let one = at(&b, 0, kind);
        let count = at(&b, 0, 11);
        let length = [0, 1, 2, 300][choose(4)];
        let mut whole = junk(length);
        whole.extend_from_slice(&b);
        reach!("same");
        compare(&one, &at(&whole, length, kind));
        compare(&count, &at(&whole, length, 11));
    }

    fn h_place_count("C31", Both, ["same"],
        "numbers of fonts of font sets with headers of 0 to 8 bytes and any 2 bytes after them, on their own and after 0 to 5 other bytes")
    {
        let size = choose(9);
        let mut b = bytes::<10>();
        b[2] = size as u8;
        let length = choose(6);
        let mut whole = junk(length);
        whole.extend_from_slice(&b);
        reach!("same");
        compare(&at(&b, 0, 11), &at(&whole, length, 11));
    }
}
