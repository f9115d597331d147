//! Dictionaries.

use std::collections::HashMap;

use postscript::compact1::{Number, Operations, Operator};

use crate::sx::{assume, between, byte, choose, observe, split, u16, u32};
use crate::util::*;
use crate::{check, harnesses, reach};

/// The operators of Top and Private dictionaries (sections 9 and 15).
fn operator(code: u16) -> Option<Operator> {
    use Operator::*;
    Some(match code {
        0 => Version,
        1 => Notice,
        2 => FullName,
        3 => FamilyName,
        4 => Weight,
        5 => FontBBox,
        6 => BlueValues,
        7 => OtherBlues,
        8 => FamilyBlues,
        9 => FamilyOtherBlues,
        10 => StdHW,
        11 => StdVW,
        13 => UniqueID,
        14 => XUID,
        15 => CharSet,
        16 => Encoding,
        17 => CharStrings,
        18 => Private,
        19 => Subrs,
        20 => DefaultWidthX,
        21 => NominalWidthX,
        0xc00 => Copyright,
        0xc01 => IsFixedPitch,
        0xc02 => ItalicAngle,
        0xc03 => UnderlinePosition,
        0xc04 => UnderlineThickness,
        0xc05 => PaintType,
        0xc06 => CharStringType,
        0xc07 => FontMatrix,
        0xc08 => StrokeWidth,
        0xc09 => BlueScale,
        0xc0a => BlueShift,
        0xc0b => BlueFuzz,
        0xc0c => StemSnapH,
        0xc0d => StemSnapV,
        0xc0e => ForceBold,
        0xc11 => LanguageGroup,
        0xc12 => ExpansionFactor,
        0xc13 => InitialRandomSeed,
        0xc14 => SyntheticBase,
        0xc15 => PostScript,
        0xc16 => BaseFontName,
        0xc17 => BaseFontBlend,
        0xc1e => ROS,
        0xc1f => CIDFontVersion,
        0xc20 => CIDFontRevision,
        0xc21 => CIDFontType,
        0xc22 => CIDCount,
        0xc23 => UIDBase,
        0xc24 => FDArray,
        0xc25 => FDSelect,
        0xc26 => FontName,
        _ => return None,
    })
}

/// The default operands (tables 9, 10, and 23).
fn default(operator: Operator) -> Option<&'static [f32]> {
    use Operator::*;
    Some(match operator {
        FontBBox => &[0.0, 0.0, 0.0, 0.0],
        CharSet | Encoding | DefaultWidthX | NominalWidthX => &[0.0],
        IsFixedPitch | ItalicAngle | PaintType | StrokeWidth | ForceBold | LanguageGroup => &[0.0],
        InitialRandomSeed | CIDFontVersion | CIDFontRevision | CIDFontType => &[0.0],
        UnderlinePosition => &[-100.0],
        UnderlineThickness => &[50.0],
        CharStringType => &[2.0],
        FontMatrix => &[0.001, 0.0, 0.0, 0.001, 0.0, 0.0],
        BlueScale => &[0.039625],
        BlueShift => &[7.0],
        BlueFuzz => &[1.0],
        ExpansionFactor => &[0.06],
        CIDCount => &[8720.0],
        _ => return None,
    })
}

fn value(number: Number) -> f32 {
    match number {
        Number::Integer(value) => value as f32,
        Number::Real(value) => value,
    }
}

/// Append an integer of any value in one of five forms.
fn operand(b: &mut Vec<u8>, forms: usize) -> i32 {
    match choose(forms) {
        0 => {
            let first = between(32, 246);
            b.push(first);
            first as i32 - 139
        }
        1 => {
            let (hi, lo) = (byte(), byte());
            b.extend_from_slice(&[28, hi, lo]);
            ((hi as u16) << 8 | lo as u16) as i16 as i32
        }
        2 => {
            let (first, second) = (between(247, 250), byte());
            b.extend_from_slice(&[first, second]);
            (first as i32 - 247) * 256 + second as i32 + 108
        }
        3 => {
            let (first, second) = (between(251, 254), byte());
            b.extend_from_slice(&[first, second]);
            -(first as i32 - 251) * 256 - second as i32 - 108
        }
        _ => {
            let value = u32();
            b.push(29);
            b.extend_from_slice(&value.to_be_bytes());
            value as i32
        }
    }
}

/// Append a symbolic operator, whether it exists or not.
fn code(b: &mut Vec<u8>) -> u16 {
    if choose(2) == 0 {
        let code = byte();
        // what does not begin a number
        assume((code <= 27) & (code != 12) | (code == 31) | (code == 255));
        b.push(code);
        code as u16
    } else {
        let code = byte();
        b.extend_from_slice(&[12, code]);
        0xc00 | code as u16
    }
}

/// One of a few operators of different natures.
fn few() -> (u16, Operator) {
    use Operator::*;
    [(5, FontBBox), (17, CharStrings), (19, Subrs), (0xc07, FontMatrix), (0xc24, FDArray), (10, StdHW)][choose(6)]
}

fn emit(b: &mut Vec<u8>, code: u16) {
    if code > 255 {
        b.push(12);
    }
    b.push(code as u8);
}

fn equal(found: Option<&[Number]>, expected: &[i32]) -> bool {
    match found {
        Some(found) => {
            observe(found.len() as u64);
            if found.len() != expected.len() {
                return false;
            }
            let mut result = true;
            for i in 0..expected.len() {
                match found[i] {
                    Number::Integer(value) => {
                        observe(value as u64);
                        result &= value == expected[i];
                    }
                    _ => return false,
                }
            }
            result
        }
        _ => expected.is_empty(),
    }
}

fn one(operands: usize, forms: usize) {
    let mut b = vec![];
    let count = choose(operands + 1);
    let expected: Vec<i32> = (0..count).map(|_| operand(&mut b, forms)).collect();
    let code = code(&mut b);
    match read::<Operations>(&b) {
        Some((operations, _)) => {
            let code = split(code as u64) as u16;
            match operator(code) {
                Some(operator) => {
                    reach!("operator");
                    observe(code as u64);
                    check!(operations.0.len() == 1, "C09 an operation gives one entry");
                    check!(operations.0.contains_key(&operator), "C09 an operator code gives its operator");
                    check!(
                        equal(operations.0.get(&operator).map(|value| &value[..]), &expected),
                        "C09 operands precede their operator and keep their order and values"
                    );
                }
                _ => check!(false, "C09 reserved operators are rejected"),
            }
        }
        _ => {
            let code = split(code as u64) as u16;
            reach!("reserved");
            check!(operator(code).is_none(), "C09 every operator is accepted");
        }
    }
}

fn several(limit: usize, operands: usize) {
    let mut b = vec![];
    let mut expected: Vec<(Operator, Vec<i32>)> = vec![];
    for _ in 0..choose(limit + 1) {
        let count = choose(operands + 1);
        let values: Vec<i32> = (0..count).map(|_| operand(&mut b, 1)).collect();
        let (code, operator) = few();
        emit(&mut b, code);
        match expected.iter_mut().find(|entry| entry.0 == operator) {
            Some(entry) => {
                reach!("repeated");
                entry.1 = values;
            }
            _ => expected.push((operator, values)),
        }
    }
    match read::<Operations>(&b) {
        Some((operations, _)) => {
            reach!("accepted");
            check!(operations.0.len() == expected.len(), "C09 there is one entry per operator");
            for (operator, values) in expected.iter() {
                check!(
                    equal(operations.0.get(operator).map(|value| &value[..]), values),
                    "C09 each operator has its own operands, those of its last occurrence"
                );
            }
        }
        _ => check!(false, "C09 well-formed dictionaries are accepted"),
    }
}

harnesses! {
    fn h_dictionary_operators("C09", Both, ["operator", "reserved"], "all 65536 codes of an operator") {
        let code = u16();
        match Operator::from(code) {
            Ok(value) => {
                let code = split(code as u64) as u16;
                reach!("operator");
                observe(code as u64);
                check!(operator(code) == Some(value), "C09 an operator code gives its operator");
            }
            _ => {
                reach!("reserved");
                let low = code & 255;
                let single = (code < 256) & (low <= 21) & (low != 12);
                let double = (code >> 8 == 12)
                    & ((low <= 14) | ((low >= 17) & (low <= 23)) | ((low >= 30) & (low <= 38)));
                check!(!(single | double), "C09 every operator is accepted");
            }
        }
    }

    fn h_dictionary_one("C09", Quick, ["operator", "reserved"],
        "one operation of any code with up to 2 integers of 3 forms")
    {
        one(2, 3);
    }

    fn h_dictionary_one_more("C09", Both, ["operator", "reserved"],
        "one operation of any code with up to 3 integers of all 5 forms")
    {
        one(3, 5);
    }

    fn h_dictionary_several("C09", Quick, ["accepted", "repeated"],
        "up to 3 operations of 6 operators with up to 2 symbolic integers each")
    {
        several(3, 2);
    }

    fn h_dictionary_several_more("C09", Both, ["accepted", "repeated"],
        "up to 4 operations of 6 operators with up to 2 symbolic integers each")
    {
        several(4, 2);
    }

    fn h_dictionary_long("C09", Both, ["accepted"],
        "an operation of 1 to 48, 49, 64, 257, and 513 operands out of which 2 are symbolic, after another one with as many")
    {
        let count = [1, 2, 16, 47, 48, 49, 64, 257, 513][choose(9)];
        let (x, y) = (between(32, 246), between(32, 246));
        let mut b = vec![];
        for _ in 0..count {
            b.push(139);
        }
        b[0] = x;
        b.push(6);
        let middle = b.len();
        for _ in 0..count {
            b.push(140);
        }
        b[middle + count - 1] = y;
        b.push(7);
        let mut one = vec![0; count];
        one[0] = x as i32 - 139;
        let mut other = vec![1; count];
        other[count - 1] = y as i32 - 139;
        match read::<Operations>(&b) {
            Some((operations, used)) => {
                reach!("accepted");
                check!(
                    equal(operations.get(Operator::BlueValues), &one) & equal(operations.get(Operator::OtherBlues), &other),
                    "C09 operands precede their operator and keep their order and values"
                );
                check!(used == b.len(), "C09 a dictionary is read to its end");
            }
            _ => check!(false, "C09 well-formed dictionaries are accepted"),
        }
    }

    fn h_dictionary_real("C09", Both, ["accepted"],
        "an operation of an integer, a real number of one symbolic digit, and an integer")
    {
        let (x, d, y) = (between(32, 246), between(0, 9), between(32, 246));
        let b = [x, 0x1e, d << 4 | 0xf, y, 12, 9];
        match read::<Operations>(&b) {
            Some((operations, _)) => {
                reach!("accepted");
                match operations.0.get(&Operator::BlueScale).map(|value| &value[..]) {
                    Some(&[Number::Integer(one), Number::Real(two), Number::Integer(three)]) => {
                        check!(
                            (one == x as i32 - 139) & (two == d as f32) & (three == y as i32 - 139),
                            "C09 operands precede their operator and keep their order and values"
                        );
                    }
                    _ => check!(false, "C09 operands precede their operator and keep their order and values"),
                }
            }
            _ => check!(false, "C09 well-formed dictionaries are accepted"),
        }
    }

    fn h_dictionary_defaults("C10", Both, ["default", "none"], "all operators, absent from a dictionary") {
        let code = u16();
        let operator = match Operator::from(code) {
            Ok(operator) => operator,
            _ => return,
        };
        split(code as u64);
        let expected = default(operator);
        let operations = Operations(HashMap::new());
        let found = operations.get(operator);
        check!(operator.default().is_some() == expected.is_some(), "C10 the operators with defaults are those of the format");
        check!(found.is_some() == expected.is_some(), "C10 an absent operator has the default operands if any");
        match (found, operator.default(), expected) {
            (Some(found), Some(other), Some(expected)) => {
                reach!("default");
                check!(found.len() == expected.len(), "C10 default operands are those of the format");
                check!(other.len() == expected.len(), "C10 default operands are those of the format");
                for i in 0..expected.len().min(found.len()).min(other.len()) {
                    observe(value(found[i]).to_bits() as u64);
                    check!(value(found[i]) == expected[i], "C10 default operands are those of the format");
                    check!(value(other[i]) == expected[i], "C10 default operands are those of the format");
                }
                check!(
                    operations.get_single(operator).map(value) == expected.first().copied(),
                    "C10 the single operand of an absent operator is the default one"
                );
            }
            _ => {
                reach!("none");
                check!(operations.get_single(operator).is_none(), "C10 an absent operator without defaults has no operands");
                check!(operations.get_double(operator).is_none(), "C10 an absent operator without defaults has no operands");
            }
        }
    }

    fn h_dictionary_explicit("C10", Both, ["explicit", "empty"],
        "all operators, present in a dictionary with 0 to 3 symbolic integers or reals")
    {
        let code = u16();
        let operator = match Operator::from(code) {
            Ok(operator) => operator,
            _ => return,
        };
        split(code as u64);
        let bits = [u32(), u32(), u32()];
        let count = choose(4);
        let real = choose(2) == 1;
        let operands: Vec<Number> = (0..count)
            .map(|i| if real { Number::Real(f32::from_bits(bits[i])) } else { Number::Integer(bits[i] as i32) })
            .collect();
        let same = |number: Number, i: usize| match number {
            Number::Integer(value) => !real & (value as u32 == bits[i]),
            Number::Real(value) => real & (value.to_bits() == bits[i]),
        };
        let mut map = HashMap::new();
        map.insert(operator, operands);
        let operations = Operations(map);
        match operations.get(operator) {
            Some(found) => {
                check!(found.len() == count, "C10 explicit operands override default ones");
                for i in 0..count.min(found.len()) {
                    check!(same(found[i], i), "C10 explicit operands override default ones");
                }
            }
            _ => check!(false, "C10 explicit operands override default ones"),
        }
        match operations.get_single(operator) {
            Some(number) => {
                reach!("explicit");
                check!(count > 0 && same(number, 0), "C10 the single operand is the first one");
            }
            _ => {
                reach!("empty");
                check!(count == 0, "C10 the single operand is the first one");
            }
        }
        match operations.get_double(operator) {
            Some((one, other)) => {
                check!(count > 1 && same(one, 0) & same(other, 1), "C10 the double operands are the first two");
            }
            _ => check!(count < 2, "C10 the double operands are the first two"),
        }
    }
}
