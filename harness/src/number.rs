//! Numbers in dictionaries.

use postscript::compact1::{Number, StringID};

use crate::sx::{assume, between, byte, bytes, choose, observe, u32};
use crate::util::*;
use crate::{check, harnesses, reach};

/// What an integer encoding means: the value and the number of bytes.
fn integer(b: &[u8]) -> Option<(i32, usize)> {
    let first = *b.first()? as i32;
    match first {
        32..=246 => Some((first - 139, 1)),
        247..=250 => Some(((first - 247) * 256 + *b.get(1)? as i32 + 108, 2)),
        251..=254 => Some((-(first - 251) * 256 - *b.get(1)? as i32 - 108, 2)),
        28 => Some((((*b.get(1)? as i8 as i32) << 8) | *b.get(2)? as i32, 3)),
        29 => Some((
            ((*b.get(1)? as i32) << 24)
                | ((*b.get(2)? as i32) << 16)
                | ((*b.get(3)? as i32) << 8)
                | (*b.get(4)? as i32),
            5,
        )),
        _ => None,
    }
}

/// A value of a real number with at most seven digits and a small exponent: one correctly rounded
/// operation on two exact operands.
fn real(negative: bool, mantissa: u64, exponent: i32) -> f32 {
    const POWERS: [f32; 11] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10];
    let value = mantissa as f32;
    let value = if exponent < 0 {
        value / POWERS[(-exponent) as usize]
    } else {
        value * POWERS[exponent as usize]
    };
    if negative {
        -value
    } else {
        value
    }
}

/// A real number of a given shape with symbolic digits. The shape is made of `d` (any digit),
/// `.`, `-`, `E` (an exponent), `e` (a negative exponent), and `x` (any digit of an exponent,
/// which is concrete on each path).
fn shape(shape: &str) -> ([u8; 12], usize, f32) {
    let mut nibbles = [0u8; 24];
    let mut count = 0;
    let (mut negative, mut mantissa, mut fraction) = (false, 0u64, None);
    let (mut sign, mut exponent) = (1, 0i32);
    for kind in shape.bytes() {
        nibbles[count] = match kind {
            b'd' => {
                let digit = between(0, 9);
                mantissa = mantissa * 10 + digit as u64;
                if let Some(fraction) = fraction.as_mut() {
                    *fraction += 1;
                }
                digit
            }
            b'x' => {
                let digit = choose(10) as u8;
                exponent = exponent * 10 + digit as i32;
                digit
            }
            b'.' => {
                fraction = Some(0i32);
                0xa
            }
            b'E' => 0xb,
            b'e' => {
                sign = -1;
                0xc
            }
            _ => {
                negative = true;
                0xe
            }
        };
        count += 1;
    }
    nibbles[count] = 0xf;
    count += 1;
    if count % 2 == 1 {
        // nothing is said of what follows the end within its byte
        nibbles[count] = between(0, 15);
        count += 1;
    }
    let mut buffer = [0u8; 12];
    for i in 0..count / 2 {
        buffer[i] = (nibbles[2 * i] << 4) | nibbles[2 * i + 1];
    }
    assume(mantissa <= 1 << 24);
    let exponent = sign * exponent - fraction.unwrap_or(0);
    // keep to where the expectation is a single rounding
    assume((-10..=10).contains(&exponent));
    (buffer, count / 2, real(negative, mantissa, exponent))
}

fn shapes(list: &[&str]) {
    let which = choose(list.len());
    let (buffer, size, expected) = shape(list[which]);
    let tail = byte();
    let mut b = [0u8; 14];
    b[0] = 0x1e;
    b[1..=size].copy_from_slice(&buffer[..size]);
    b[size + 1] = tail;
    match read::<Number>(&b[..size + 2]) {
        Some((Number::Real(value), used)) => {
            reach!("real");
            observe(value.to_bits() as u64);
            observe(used as u64);
            check!(value == expected, "C06 a real number has the value of its decimal notation");
            check!(used == size + 1, "C06 a real number ends with the byte of its end nibble");
        }
        _ => check!(false, "C06 a well-formed real number is accepted"),
    }
}

/// Decimal numbers right in the middle between two single-precision ones: all digits but the last,
/// the last digit, the exponent of ten of the last digit, and the lower of the two.
const MIDDLES: [(&str, u8, i32, u32); 9] = [
    ("16777217", 0, -1, 0x4b800000),
    ("100000017881393432617187", 5, -24, 0x3f800001),
    ("1000000051", 2, 0, 0x501502f9),
    ("99999997764825820922851562", 5, -28, 0x3dcccccc),
    ("9999999761589606350753456354141235351562", 5, -48, 0x33d6bf94),
    ("34028235677973366163753939545814256844", 8, 0, 0x7f7fffff),
    (
        "70064923216240853546186479164495806564013097093825788587853414194489554134293030074331909418106079101562",
        5, -150, 0,
    ),
    (
        "210194769648722560638559437493487419692039291281477365763560242583468662402879090222995728254318237304687",
        5, -150, 1,
    ),
    (
        "1175494280757364291727882991035766513322858992758990427682963118425003064965173038558532425668090581893920898437",
        5, -150, 0x7fffff,
    ),
];

fn middle(which: usize, tail: usize) {
    let (digits, last, exponent, low) = MIDDLES[which];
    let negative = choose(2) == 1;
    let mut nibbles = vec![];
    if negative {
        nibbles.push(0xe);
    }
    for (i, digit) in digits.bytes().enumerate() {
        if i == 1 {
            nibbles.push(0xa);
        }
        nibbles.push(digit - b'0');
    }
    // the digit that decides and, far enough, one that breaks the tie
    let (one, other) = (choose(10) as u8, choose(10) as u8);
    nibbles.push(one);
    for _ in 0..tail {
        nibbles.push(0);
    }
    nibbles.push(other);
    let exponent = exponent + digits.len() as i32;
    if exponent != 0 {
        nibbles.push(if exponent < 0 { 0xc } else { 0xb });
        let exponent = exponent.unsigned_abs() as u8;
        if exponent >= 100 {
            nibbles.push(exponent / 100);
        }
        nibbles.push(exponent / 10 % 10);
        nibbles.push(exponent % 10);
    }
    nibbles.push(0xf);
    if nibbles.len() % 2 == 1 {
        nibbles.push(0xf);
    }
    let mut b = vec![0x1e];
    b.extend(nibbles.chunks(2).map(|pair| pair[0] << 4 | pair[1]));
    let even = if low % 2 == 0 { low } else { low + 1 };
    let expected = if one < last {
        low
    } else if one > last || other > 0 {
        low + 1
    } else {
        reach!("tie");
        even
    };
    let expected = if negative { expected | 1 << 31 } else { expected };
    match read::<Number>(&b) {
        Some((Number::Real(value), used)) => {
            reach!("rounded");
            observe(value.to_bits() as u64);
            check!(value.to_bits() == expected, "C06 a real number is the nearest one, or the even one of two");
            check!(used == b.len(), "C06 a real number ends with the byte of its end nibble");
        }
        _ => check!(false, "C06 a well-formed real number is accepted"),
    }
}

harnesses! {
    fn h_number_integer("C05", Both, ["integer", "reserved", "truncated"],
        "all strings of 0 to 6 bytes, except for real numbers (first byte 30)")
    {
        let b = bytes::<6>();
        let n = choose(7);
        assume(b[0] != 0x1e);
        let expected = integer(&b[..n]);
        match read::<Number>(&b[..n]) {
            Some((Number::Integer(value), used)) => {
                reach!("integer");
                observe(value as u64);
                observe(used as u64);
                match expected {
                    Some((expected, size)) => {
                        check!(value == expected, "C05 an integer has the value the format assigns to its bytes");
                        check!(used == size, "C05 an integer consumes exactly its encoding");
                    }
                    _ => check!(false, "C05 reserved and truncated integers are rejected"),
                }
            }
            Some(_) => check!(false, "C05 an integer encoding does not give a real number"),
            _ => {
                if n > 0 && integer(&[b[0], 0, 0, 0, 0]).is_some() {
                    reach!("truncated");
                } else {
                    reach!("reserved");
                }
                check!(expected.is_none(), "C05 every well-formed integer is accepted");
            }
        }
    }

    fn h_number_sequence("C05", Both, ["sequence"],
        "all pairs of integers of all forms, one after the other, in 10 bytes")
    {
        let b = bytes::<10>();
        let (one, other);
        assume(b[0] != 0x1e);
        match integer(&b) {
            Some((value, size)) => {
                assume(b[size] != 0x1e);
                match integer(&b[size..]) {
                    Some((another, another_size)) => {
                        one = value;
                        other = (another, size + another_size);
                    }
                    _ => return,
                }
            }
            _ => return,
        }
        let mut tape = std::io::Cursor::new(&b[..]);
        let first = tape.take::<Number>();
        let second = tape.take::<Number>();
        reach!("sequence");
        match (first, second) {
            (Ok(Number::Integer(first)), Ok(Number::Integer(second))) => {
                check!((first == one) & (second == other.0), "C05 consecutive integers are read in order");
                check!(tape.position() == other.1 as u64, "C05 consecutive integers consume exactly their encodings");
            }
            _ => check!(false, "C05 consecutive integers are accepted"),
        }
    }

    fn h_number_real("C06", Quick, ["real"],
        "real numbers of 14 shapes with all digits: up to 4 digits of mantissa, 1 digit of exponent")
    {
        shapes(&[
            "d", "dd", "-d", ".d", "d.d", "-.d", "-d.d", "d.dd", "dd.d", "dEx", "dex", "-dex", "d.dex", "d.dEx",
        ]);
    }

    fn h_number_real_more("C06", Both, ["real"],
        "real numbers of 21 shapes with all digits: up to 4 digits of mantissa, 2 digits of exponent")
    {
        shapes(&[
            "d", "dd", "ddd", "-d", "-ddd", ".d", ".ddd", "d.d", "d.", "-.dd", "-d.dd", "dd.dd",
            "dEx", "dex", "dExx", "dexx", "-dEx", "-d.dex", "d.ddEx", ".ddex", "dddd",
        ]);
    }

    fn h_number_real_middle("C06", Both, ["rounded", "tie"],
        "numbers of 9 to 131 digits around the middles between 5 pairs of single-precision ones, including the largest and the smallest, with any digit in the deciding place and any digit 13 places later")
    {
        let which = choose(5);
        middle([0, 1, 3, 5, 6][which], 12);
    }

    fn h_number_real_middle_more("C06", Thorough, ["rounded", "tie"],
        "numbers of 9 to 131 digits around the middles between 9 pairs of single-precision ones with any digit in the deciding place and any digit 13 to 21 places later")
    {
        let which = choose(MIDDLES.len());
        middle(which, 12 + 4 * choose(3));
    }

    fn h_number_real_reserved("C06", Both, ["rejected"],
        "a reserved nibble at any of the first 4 positions among all digits and periods")
    {
        let mut b = [0x1e, byte(), byte(), 0xff];
        let k = choose(4);
        for i in 0..4 {
            let value = b[1 + i / 2];
            let nibble = if i % 2 == 0 { value >> 4 } else { value & 15 };
            if i < k {
                assume(nibble <= 9);
            } else if i == k {
                assume(nibble == 0xd);
            }
        }
        b[3] = 0xff;
        reach!("rejected");
        check!(read::<Number>(&b).is_none(), "C06 a reserved nibble is rejected");
    }

    fn h_number_real_empty("C06", Both, ["empty", "truncated"],
        "real numbers without digits or without an end, up to 4 nibbles of any digits")
    {
        let k = choose(4);
        if k == 0 {
            reach!("empty");
            let b = [0x1e, 0xf0 | between(0, 15)];
            check!(read::<Number>(&b).is_none(), "C06 a real number without digits is rejected");
        } else {
            reach!("truncated");
            let mut b = [0x1e, 0, 0];
            for i in 1..k {
                b[i] = (between(0, 9) << 4) | between(0, 9);
            }
            check!(read::<Number>(&b[..k]).is_none(), "C06 a real number without an end is rejected");
        }
    }

    fn h_string_id("C12", Both, ["accepted", "negative", "large", "real"],
        "all 2^32 integers, and reals with all 2^32 bit patterns")
    {
        if choose(2) == 0 {
            let value = u32() as i32;
            match StringID::try_from(Number::Integer(value)) {
                Ok(id) => {
                    reach!("accepted");
                    observe(id as u64);
                    check!(id as i32 == value, "C12 a string identifier has the value of its number");
                }
                Err(_) => {
                    if value < 0 {
                        reach!("negative");
                    } else {
                        reach!("large");
                    }
                    check!((value < 0) | (value > 65535), "C12 every number from 0 to 65535 is a string identifier");
                }
            }
        } else {
            reach!("real");
            let value = f32::from_bits(u32());
            check!(StringID::try_from(Number::Real(value)).is_err(), "C12 a real number is no string identifier");
        }
    }
}
