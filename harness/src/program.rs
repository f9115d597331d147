//! Character strings.

use postscript::type2::{Operation, Operator, Program};

use crate::sx::{assume, between, byte, bytes, choose, observe, split, u16, u32};
use crate::{check, harnesses, reach};

/// What a program did.
pub struct Outcome {
    pub operations: Vec<Operation>,
    pub failed: bool,
    pub width: Option<f32>,
}

/// Run a program up to its end or a number of operations.
pub fn run(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>], limit: usize) -> Outcome {
    let mut program = Program::new(code, global, local);
    let mut operations = vec![];
    let mut failed = false;
    for _ in 0..limit {
        match program.next() {
            Ok(Some(operation)) => operations.push(operation),
            Ok(None) => break,
            Err(_) => {
                failed = true;
                break;
            }
        }
    }
    Outcome { operations, failed, width: program.width() }
}

fn plain(code: &[u8]) -> Outcome {
    run(code, &[], &[], 100)
}

fn watch(outcome: &Outcome) {
    observe(outcome.failed as u64);
    for (operator, operands) in outcome.operations.iter() {
        observe(*operator as u64);
        for operand in operands {
            observe(operand.to_bits() as u64);
        }
    }
    observe(outcome.width.map_or(!0, |width| width.to_bits() as u64));
}

/// Equal as numbers, not-a-number being equal to itself.
pub fn close(one: f32, other: f32) -> bool {
    (one == other) | ((one != one) & (other != other))
}

pub fn equal(one: &[f32], other: &[f32]) -> bool {
    if one.len() != other.len() {
        return false;
    }
    let mut result = true;
    for i in 0..one.len() {
        result &= close(one[i], other[i]);
    }
    result
}

/// The only operation is of this kind with these operands.
fn only(outcome: &Outcome, operator: Operator, operands: &[f32]) -> bool {
    !outcome.failed
        && outcome.operations.len() == 1
        && outcome.operations[0].0 == operator
        && equal(&outcome.operations[0].1, operands)
}

/// Append a concrete integer.
pub fn number(code: &mut Vec<u8>, value: i32) {
    if (-107..=107).contains(&value) {
        code.push((value + 139) as u8);
    } else {
        code.push(28);
        code.extend_from_slice(&(value as i16).to_be_bytes());
    }
}

/// Append a symbolic integer of one byte.
fn small(code: &mut Vec<u8>) -> f32 {
    let value = between(32, 246);
    code.push(value);
    (value as i32 - 139) as f32
}

/// Append a symbolic fixed-point number.
fn fixed(code: &mut Vec<u8>) -> f32 {
    let value = u32();
    code.push(255);
    code.extend_from_slice(&value.to_be_bytes());
    (value as i32) as f32 / 65536.0
}

/// Append a number of any form and any value.
fn any(code: &mut Vec<u8>) -> f32 {
    match choose(5) {
        0 => small(code),
        1 => {
            let (first, second) = (between(247, 250), byte());
            code.extend_from_slice(&[first, second]);
            ((first as i32 - 247) * 256 + second as i32 + 108) as f32
        }
        2 => {
            let (first, second) = (between(251, 254), byte());
            code.extend_from_slice(&[first, second]);
            (-(first as i32 - 251) * 256 - second as i32 - 108) as f32
        }
        3 => {
            let value = u16();
            code.push(28);
            code.extend_from_slice(&value.to_be_bytes());
            value as i16 as f32
        }
        _ => fixed(code),
    }
}

/// Append a number of any form and any value, giving what the crate takes it for.
fn taken(code: &mut Vec<u8>, number: impl Fn(&mut Vec<u8>) -> f32) -> f32 {
    let mut alone = vec![];
    let value = number(&mut alone);
    code.extend_from_slice(&alone);
    alone.push(6);
    match plain(&alone).operations.first() {
        Some((_, operands)) if operands.len() == 1 => operands[0],
        _ => value,
    }
}

fn emit(code: &mut Vec<u8>, operator: u16) {
    if operator > 255 {
        code.push(12);
    }
    code.push(operator as u8);
}

/// The operators of character strings (appendix A).
fn operator(code: u16) -> Option<Operator> {
    use Operator::*;
    Some(match code {
        1 => HStem,
        3 => VStem,
        4 => VMoveTo,
        5 => RLineTo,
        6 => HLineTo,
        7 => VLineTo,
        8 => RRCurveTo,
        10 => CallSubr,
        11 => Return,
        14 => EndChar,
        18 => HStemHM,
        19 => HintMask,
        20 => CntrMask,
        21 => RMoveTo,
        22 => HMoveTo,
        23 => VStemHM,
        24 => RCurveLine,
        25 => RLineCurve,
        26 => VVCurveTo,
        27 => HHCurveTo,
        29 => CallGSubr,
        30 => VHCurveTo,
        31 => HVCurveTo,
        0xc03 => And,
        0xc04 => Or,
        0xc05 => Not,
        0xc09 => Abs,
        0xc0a => Add,
        0xc0b => Sub,
        0xc0c => Div,
        0xc0e => Neg,
        0xc0f => Eq,
        0xc12 => Drop,
        0xc14 => Put,
        0xc15 => Get,
        0xc16 => IfElse,
        0xc17 => Random,
        0xc18 => Mul,
        0xc1a => Sqrt,
        0xc1b => Dup,
        0xc1c => Exch,
        0xc1d => Index,
        0xc1e => Roll,
        0xc22 => HFlex,
        0xc23 => Flex,
        0xc24 => HFlex1,
        0xc25 => Flex1,
        _ => return None,
    })
}

/// Operators that give operations, other than hint masks.
const CLEARING: [(u16, Operator); 23] = [
    (21, Operator::RMoveTo),
    (22, Operator::HMoveTo),
    (4, Operator::VMoveTo),
    (5, Operator::RLineTo),
    (6, Operator::HLineTo),
    (7, Operator::VLineTo),
    (8, Operator::RRCurveTo),
    (27, Operator::HHCurveTo),
    (31, Operator::HVCurveTo),
    (24, Operator::RCurveLine),
    (25, Operator::RLineCurve),
    (30, Operator::VHCurveTo),
    (26, Operator::VVCurveTo),
    (0xc23, Operator::Flex),
    (0xc22, Operator::HFlex),
    (0xc24, Operator::HFlex1),
    (0xc25, Operator::Flex1),
    (1, Operator::HStem),
    (3, Operator::VStem),
    (18, Operator::HStemHM),
    (23, Operator::VStemHM),
    (19, Operator::HintMask),
    (20, Operator::CntrMask),
];

/// Whether an operator takes a number of operands (section 4).
fn legal(operator: Operator, n: usize) -> bool {
    use Operator::*;
    match operator {
        RMoveTo => n == 2,
        HMoveTo | VMoveTo => n == 1,
        RLineTo => n >= 2 && n % 2 == 0,
        HLineTo | VLineTo => n >= 1,
        RRCurveTo => n >= 6 && n % 6 == 0,
        HHCurveTo | VVCurveTo | HVCurveTo | VHCurveTo => n >= 4 && n % 4 <= 1,
        RCurveLine => n >= 8 && n % 6 == 2,
        RLineCurve => n >= 8 && n % 2 == 0,
        Flex => n == 13,
        Flex1 => n == 11,
        HFlex => n == 7,
        HFlex1 => n == 9,
        HStem | VStem | HStemHM | VStemHM => n >= 2 && n % 2 == 0,
        _ => false,
    }
}

/// The largest number of operands an operator can take out of those available.
fn take(operator: Operator, n: usize) -> Option<usize> {
    (1..=n).rev().find(|m| legal(operator, *m))
}

fn arity(limit: usize) {
    let (code, operator) = CLEARING[choose(21)];
    let n = choose(limit + 1);
    let mut program = vec![];
    let values: Vec<f32> = (0..n).map(|_| small(&mut program)).collect();
    emit(&mut program, code);
    // what is next starts with an empty stack
    let mut one = 0.0;
    let more = choose(2) == 1;
    if more {
        one = small(&mut program);
    }
    program.push(22);
    let outcome = plain(&program);
    watch(&outcome);
    match take(operator, n) {
        Some(m) => {
            reach!("legal");
            check!(!outcome.operations.is_empty(), "C22 an operator with a legal number of operands is accepted");
            if let Some((found, operands)) = outcome.operations.first() {
                check!(*found == operator, "C22 an operation has its operator");
                check!(
                    equal(operands, &values[n - m..]),
                    "C22 an operation has the longest legal run of operands that precede it, in order"
                );
            }
            if more {
                check!(
                    !outcome.failed && outcome.operations.len() == 2 && equal(&outcome.operations[1].1, &[one]),
                    "C22 no operands are left after an operation"
                );
            } else {
                check!(
                    outcome.failed && outcome.operations.len() == 1,
                    "C22 no operands are left after an operation"
                );
            }
        }
        _ => {
            reach!("illegal");
            check!(
                outcome.failed && outcome.operations.is_empty(),
                "C22 an operator without enough operands is rejected"
            );
        }
    }
}

/// A reference for operators that work on the stack. The flag is whether it fails.
fn compute(code: u16, stack: &mut Vec<f32>) -> bool {
    let flag = |value: bool| if value { 1.0 } else { 0.0 };
    let need = match code {
        0xc05 | 0xc09 | 0xc0e | 0xc12 | 0xc1a | 0xc1b => 1,
        0xc16 => 4,
        _ => 2,
    };
    let n = stack.len();
    if n < need {
        return true;
    }
    let mut top: Vec<f32> = stack.split_off(n - need);
    match code {
        0xc03 => stack.push(flag((top[0] != 0.0) & (top[1] != 0.0))),
        0xc04 => stack.push(flag((top[0] != 0.0) | (top[1] != 0.0))),
        0xc05 => stack.push(flag(top[0] == 0.0)),
        0xc09 => stack.push(top[0].abs()),
        0xc0a => stack.push(top[0] + top[1]),
        0xc0b => stack.push(top[0] - top[1]),
        0xc0c => stack.push(top[0] / top[1]),
        0xc0e => stack.push(-top[0]),
        0xc0f => stack.push(flag(top[0] == top[1])),
        0xc12 => {}
        0xc16 => stack.push(if top[2] <= top[3] { top[0] } else { top[1] }),
        0xc18 => stack.push(top[0] * top[1]),
        0xc1a => stack.push(top[0].sqrt()),
        0xc1b => stack.extend_from_slice(&[top[0], top[0]]),
        _ => {
            top.reverse();
            stack.extend_from_slice(&top);
        }
    }
    false
}

const ARITHMETIC: [u16; 15] = [
    0xc03, 0xc04, 0xc05, 0xc09, 0xc0a, 0xc0b, 0xc0c, 0xc0e, 0xc0f, 0xc12, 0xc16, 0xc18, 0xc1a, 0xc1b, 0xc1c,
];

/// Operators one after the other on symbolic operands.
fn chain(operands: usize, length: usize, any: impl Fn(&mut Vec<u8>) -> f32) {
    let mut program = vec![];
    let mut stack = vec![];
    for _ in 0..choose(operands + 1) {
        stack.push(any(&mut program));
    }
    let mut failed = false;
    for _ in 0..length {
        let code = ARITHMETIC[choose(ARITHMETIC.len())];
        emit(&mut program, code);
        failed = failed || compute(code, &mut stack);
        if failed {
            break;
        }
    }
    // an operator that takes anything
    program.push(6);
    let outcome = plain(&program);
    watch(&outcome);
    if failed {
        reach!("underflow");
        check!(
            outcome.failed && outcome.operations.is_empty(),
            "C25 an operator without enough operands is rejected"
        );
    } else if stack.is_empty() {
        check!(outcome.failed, "C25 an operator leaves the results it should");
    } else {
        reach!("computed");
        check!(
            only(&outcome, Operator::HLineTo, &stack),
            "C25 an operator replaces its operands by its results"
        );
    }
}

fn bias(count: usize) -> i32 {
    if count < 1240 {
        107
    } else if count < 33900 {
        1131
    } else {
        32768
    }
}

/// Append a token to a program: numbers and operators that make sense one after the other.
pub fn token(code: &mut Vec<u8>) {
    match choose(9) {
        0 | 1 => {
            small(code);
        }
        2 => emit(code, 0xc0a),
        3 => emit(code, 0xc1b),
        4 => code.push(22),
        5 => code.push(5),
        6 => code.push(18),
        7 => {
            // a mask with from 1 to 8 stems
            small(code);
            small(code);
            code.push(19);
            code.push(byte());
        }
        _ => emit(code, 0xc12),
    }
}

fn inline(before: usize, inside: usize, after: usize) {
    let kind = choose(3);
    let mut head = vec![];
    for _ in 0..before {
        small(&mut head);
    }
    let mut body = vec![];
    for _ in 0..inside {
        token(&mut body);
    }
    let mut tail = vec![];
    for _ in 0..after {
        token(&mut tail);
    }
    tail.push(6);
    let mut whole = head.clone();
    whole.extend_from_slice(&body);
    whole.extend_from_slice(&tail);
    let mut callee = body.clone();
    callee.push(11);
    let mut program = head;
    number(&mut program, -107);
    let outcome = match kind {
        0 => {
            reach!("local");
            program.push(10);
            program.extend_from_slice(&tail);
            run(&program, &[], &[callee], 100)
        }
        1 => {
            reach!("global");
            program.push(29);
            program.extend_from_slice(&tail);
            run(&program, &[callee], &[], 100)
        }
        _ => {
            reach!("nested");
            program.push(10);
            program.extend_from_slice(&tail);
            let mut caller = vec![];
            number(&mut caller, -106);
            caller.extend_from_slice(&[29, 11]);
            run(&program, &[vec![14], callee], &[caller], 100)
        }
    };
    let expected = plain(&whole);
    watch(&outcome);
    alike(&outcome, &expected);
}

/// Two programs did the same.
pub fn matching(one: &Outcome, other: &Outcome) -> bool {
    let mut result = one.failed == other.failed && one.operations.len() == other.operations.len();
    for (one, other) in one.operations.iter().zip(other.operations.iter()) {
        result = result && one.0 == other.0 && equal(&one.1, &other.1);
    }
    result && match (one.width, other.width) {
        (Some(one), Some(other)) => close(one, other),
        (None, None) => true,
        _ => false,
    }
}

fn alike(outcome: &Outcome, expected: &Outcome) {
    check!(outcome.failed == expected.failed, "C26 a call fails if and only if its inlined body does");
    check!(
        outcome.operations.len() == expected.operations.len(),
        "C26 a call gives the operations of its inlined body"
    );
    for (one, other) in outcome.operations.iter().zip(expected.operations.iter()) {
        check!(
            one.0 == other.0 && equal(&one.1, &other.1),
            "C26 a call gives the operations of its inlined body"
        );
    }
    let same = match (outcome.width, expected.width) {
        (Some(one), Some(other)) => close(one, other),
        (None, None) => true,
        _ => false,
    };
    check!(same, "C26 a call gives the width of its inlined body");
}

/// Run a program part of which is at a certain level of subroutines: any of the shallow ones or the deepest.
fn relocated(head: &[u8], body: &[u8], tail: &[u8]) -> Outcome {
    let depth = [1, 2, 3, 10][choose(4)];
    let kind = choose(3);
    let (mut local, mut global) = (vec![], vec![]);
    // each calls the next one
    for i in 0..depth {
        let routine = if i + 1 < depth {
            vec![32 + i as u8 + 1, level(kind, i + 1), 11]
        } else {
            [body, &[11]].concat()
        };
        // the same number in both tables
        let is_local = level(kind, i) == 10;
        local.push(if is_local { routine.clone() } else { vec![14] });
        global.push(if is_local { vec![14] } else { routine });
    }
    run(&[head, &[32, level(kind, 0)], tail].concat(), &global, &local, 100)
}

/// The operator that calls a level: local, global, or either in turn.
fn level(kind: usize, i: usize) -> u8 {
    match kind {
        0 => 10,
        1 => 29,
        _ => [10, 29][i % 2],
    }
}

/// Run an operator after a few operands of any values.
pub fn arbitrary_operands() -> bool {
    let mut program = vec![];
    let n = choose(4);
    for _ in 0..n {
        if choose(2) == 0 {
            fixed(&mut program);
        } else {
            program.push(28);
            program.extend_from_slice(&bytes::<2>());
        }
    }
    let code = byte();
    if choose(2) == 0 {
        assume(code < 32);
        program.push(code);
    } else {
        program.extend_from_slice(&[12, code]);
    }
    program.push(6);
    let routines = vec![vec![11], vec![], vec![140, 22]];
    let outcome = run(&program, &routines, &routines, 10);
    !outcome.failed
}

fn index(n: usize) {
    let mut program = vec![];
    let mut stack: Vec<f32> = (0..n).map(|_| small(&mut program)).collect();
    let i = u16();
    program.push(28);
    program.extend_from_slice(&i.to_be_bytes());
    emit(&mut program, 0xc1d);
    program.push(6);
    let outcome = plain(&program);
    watch(&outcome);
    let i = i as i16;
    if i < 0 {
        reach!("negative");
        stack.push(stack[n - 1]);
    } else if (i as usize) < n {
        reach!("indexed");
        let i = split(i as u64) as usize;
        stack.push(stack[n - 1 - i]);
    } else {
        reach!("underflow");
        check!(
            outcome.failed & outcome.operations.is_empty(),
            "C25 an index past the operands is rejected"
        );
        return;
    }
    check!(only(&outcome, Operator::HLineTo, &stack), "C25 an index copies the operand it selects");
}

/// Have an operand that takes computing, since it is beyond the numbers of the format.
fn extreme(program: &mut Vec<u8>) -> f32 {
    // as products, and as fractions if there is a zero
    const PRODUCTS: [(&[i32], f32); 18] = [
        (&[-32768, 16384, 4], -2147483648.0),
        (&[-32768, 16384, -4], 2147483648.0),
        (&[4095, 4097, 128], 2147483520.0),
        (&[4095, 4097, -128], -2147483520.0),
        (&[-32768, 30518], -1000013824.0),
        (&[-32768, -30518], 1000013824.0),
        (&[-32768, 16384, 8], -4294967296.0),
        (&[-32768, 16384, -8], 4294967296.0),
        (&[-32768, 16384, 16384, 16384, 16384], -2361183241434822606848.0),
        (&[1, 0], f32::INFINITY),
        (&[-1, 0], f32::NEG_INFINITY),
        (&[0, 0], f32::NAN),
        (&[4096, 4096], 16777216.0),
        (&[4096, -4096], -16777216.0),
        (&[32767, -1], -32767.0),
        (&[-107, 1], -107.0),
        (&[-1131, 1], -1131.0),
        (&[-1, 1], -1.0),
    ];
    let i = choose(PRODUCTS.len() + 2);
    if i >= PRODUCTS.len() {
        // halves
        program.extend_from_slice(&[255, if i == PRODUCTS.len() { 0 } else { 0xff }, if i == PRODUCTS.len() { 1 } else { 0xfe }, 0x80, 0]);
        return if i == PRODUCTS.len() { 1.5 } else { -1.5 };
    }
    let (factors, value) = PRODUCTS[i];
    for (i, factor) in factors.iter().enumerate() {
        number(program, *factor);
        if i > 0 {
            emit(program, if *factor == 0 { 0xc0c } else { 0xc18 });
        }
    }
    value
}

/// Execute any operator on extreme operands.
fn extremes() -> bool {
    let mut program = vec![];
    for i in 0..choose(3) {
        number(&mut program, 1 + i as i32);
    }
    for _ in 0..1 + choose(2) {
        extreme(&mut program);
    }
    const OTHERS: [u16; 5] = [10, 29, 14, 11, 0xc1d];
    let i = choose(ARITHMETIC.len() + CLEARING.len() + 6);
    let code = if i < ARITHMETIC.len() {
        ARITHMETIC[i]
    } else if i < ARITHMETIC.len() + CLEARING.len() {
        CLEARING[i - ARITHMETIC.len()].0
    } else {
        *OTHERS.get(i - ARITHMETIC.len() - CLEARING.len()).unwrap_or(&0xc1e)
    };
    emit(&mut program, code);
    program.push(6);
    let routines = vec![vec![11]; 3];
    let outcome = run(&program, &routines, &routines, 10);
    watch(&outcome);
    !outcome.failed
}

/// Roll operands by any amount, and in any span unless it is given.
fn roll(n: usize, span: Option<u16>) {
    let mut program = vec![];
    let stack: Vec<f32> = (0..n).map(|_| small(&mut program)).collect();
    let (span, shift) = (span.unwrap_or_else(u16), u16());
    program.push(28);
    program.extend_from_slice(&span.to_be_bytes());
    program.push(28);
    program.extend_from_slice(&shift.to_be_bytes());
    emit(&mut program, 0xc1e);
    program.push(6);
    let (span, shift) = (span as i16 as i32, shift as i16 as i32);
    if span > 0 && span <= n as i32 {
        // as many paths as there are results
        split(span as u64);
        let span = split(span as u64) as i32;
        split(shift.rem_euclid(span) as u64);
    }
    let outcome = plain(&program);
    watch(&outcome);
    if span < 0 {
        reach!("negative");
        check!(outcome.failed & outcome.operations.is_empty(), "C25 a roll of a negative span is rejected");
        return;
    }
    if span > n as i32 {
        reach!("underflow");
        check!(outcome.failed & outcome.operations.is_empty(), "C25 a roll past the operands is rejected");
        return;
    }
    reach!("rolled");
    let span = split(span as u64) as usize;
    let mut expected = stack.clone();
    if span > 0 {
        let shift = split(shift.rem_euclid(span as i32) as u64) as usize;
        for i in 0..span {
            expected[n - span + (i + shift) % span] = stack[n - span + i];
        }
    }
    check!(only(&outcome, Operator::HLineTo, &expected), "C25 a roll rotates the operands of its span towards the top");
}

harnesses! {
    fn h_program_operands("C20", Both, ["decoded"],
        "1 to 2 operands, each of any of the 5 forms and any value")
    {
        let mut program = vec![];
        let one = any(&mut program);
        if choose(2) == 0 {
            program.push(22);
            let outcome = plain(&program);
            watch(&outcome);
            reach!("decoded");
            check!(only(&outcome, Operator::HMoveTo, &[one]), "C20 an operand has the value the format assigns to its bytes");
        } else {
            let other = any(&mut program);
            program.push(21);
            let outcome = plain(&program);
            watch(&outcome);
            check!(
                only(&outcome, Operator::RMoveTo, &[one, other]),
                "C20 operands have the values the format assigns to their bytes, in order"
            );
        }
    }

    fn h_program_operands_more("C20", Both, ["decoded"],
        "4 operands, each of any of the 5 forms and any value")
    {
        let mut program = vec![];
        let values: Vec<f32> = (0..4).map(|_| any(&mut program)).collect();
        program.push(6);
        let outcome = plain(&program);
        watch(&outcome);
        reach!("decoded");
        check!(
            only(&outcome, Operator::HLineTo, &values),
            "C20 operands have the values the format assigns to their bytes, in order"
        );
    }

    fn h_program_operands_nested("C20", Both, ["decoded"],
        "2 operands, each of any of the 5 forms and any value, the second one being in a subroutine 1 to 3 or 10 levels deep")
    {
        let (mut head, mut body) = (vec![], vec![]);
        let one = any(&mut head);
        let other = any(&mut body);
        let outcome = relocated(&head, &body, &[6]);
        watch(&outcome);
        reach!("decoded");
        check!(
            only(&outcome, Operator::HLineTo, &[one, other]),
            "C20 operands have the values the format assigns to their bytes, in order"
        );
    }

    fn h_program_operands_many("C20", Both, ["decoded"],
        "5 to 100 operands of all of the 5 forms, 2 of which are symbolic")
    {
        let mut program = vec![];
        let n = 5 + choose(96);
        let values: Vec<f32> = (0..n)
            .map(|i| {
                if i == 1 || i + 2 == n {
                    return small(&mut program);
                }
                let value = [i as i32, -(i as i32), 300 + i as i32, -400 - i as i32, 3 * i as i32][i % 5];
                match i % 5 {
                    2 => program.extend_from_slice(&[247 + ((value - 108) / 256) as u8, ((value - 108) % 256) as u8]),
                    3 => program.extend_from_slice(&[251 + ((-value - 108) / 256) as u8, ((-value - 108) % 256) as u8]),
                    4 => program.extend_from_slice(&[255, (value >> 8) as u8, value as u8, 0x80, 0]),
                    _ => program.extend_from_slice(&[28, (value >> 8) as u8, value as u8]),
                }
                value as f32 + if i % 5 == 4 { 0.5 } else { 0.0 }
            })
            .collect();
        program.push(6);
        let outcome = plain(&program);
        watch(&outcome);
        reach!("decoded");
        check!(
            only(&outcome, Operator::HLineTo, &values),
            "C20 operands have the values the format assigns to their bytes, in order"
        );
    }

    fn h_program_operands_truncated("C20", Both, ["truncated"],
        "an operand of any form of several bytes cut at any position, with any bytes")
    {
        let mut program = vec![];
        any(&mut program);
        let n = program.len();
        if n == 1 {
            return;
        }
        program.truncate(1 + choose(n - 1));
        let outcome = plain(&program);
        reach!("truncated");
        check!(outcome.failed & outcome.operations.is_empty(), "C20 a truncated operand is rejected");
    }

    fn h_program_operators("C21", Both, ["operator", "reserved"], "all 65536 codes of an operator") {
        let code = u16();
        match Operator::from(code) {
            Ok(found) => {
                let code = split(code as u64) as u16;
                reach!("operator");
                observe(code as u64);
                check!(operator(code) == Some(found), "C21 an operator code gives its operator");
            }
            _ => {
                reach!("reserved");
                let low = code & 255;
                let single = (code == 1) | (code >= 3) & (code <= 8) | (code == 10) | (code == 11) | (code == 14)
                    | (code >= 18) & (code <= 27) | (code >= 29) & (code <= 31);
                let double = (code >> 8 == 12)
                    & ((low >= 3) & (low <= 5) | (low >= 9) & (low <= 12) | (low == 14) | (low == 15) | (low == 18)
                        | (low >= 20) & (low <= 24) | (low >= 26) & (low <= 30) | (low >= 34) & (low <= 37));
                check!(!(single | double), "C21 every operator has a code");
            }
        }
    }

    fn h_program_dispatch("C21", Both, ["operation", "reserved", "computation"],
        "26 operands followed by any operator of one or two bytes, followed by another operation")
    {
        let mut program = vec![];
        for i in 0..26 {
            // not negative for the square root, not too large for others
            number(&mut program, 1 + i % 3);
        }
        let code = if choose(2) == 0 {
            let code = byte();
            assume((code < 32) & (code != 12) & (code != 28));
            program.push(code);
            split(code as u64) as u16
        } else {
            let code = byte();
            program.extend_from_slice(&[12, code]);
            0xc00 | split(code as u64) as u16
        };
        if code == 19 || code == 20 {
            program.extend_from_slice(&[14, 14]);
        }
        program.extend_from_slice(&[140, 22]);
        let outcome = plain(&program);
        watch(&outcome);
        match operator(code) {
            None => {
                reach!("reserved");
                check!(outcome.failed & outcome.operations.is_empty(), "C21 reserved operators are rejected");
            }
            Some(operator) => match operator {
                // not specified here, or covered elsewhere
                Operator::Put | Operator::Get | Operator::Random => {}
                Operator::CallSubr | Operator::CallGSubr | Operator::Return => {}
                Operator::EndChar => {
                    check!(!outcome.failed & outcome.operations.is_empty(), "C21 a program ends with its end operator");
                }
                _ => {
                    let path = CLEARING.iter().any(|item| item.0 == code);
                    let count = 1 + path as usize;
                    if path {
                        reach!("operation");
                    } else {
                        reach!("computation");
                    }
                    check!(!outcome.failed, "C21 every supported operator is executed");
                    check!(outcome.operations.len() == count, "C21 operators on the stack give no operations, the others one each");
                    if path && !outcome.operations.is_empty() {
                        check!(outcome.operations[0].0 == operator, "C21 an operation has its operator");
                    }
                    if let Some(last) = outcome.operations.last() {
                        check!(
                            last.0 == Operator::HMoveTo && equal(&last.1, &[1.0]),
                            "C21 what follows an operator is executed"
                        );
                    }
                }
            },
        }
    }

    fn h_program_dispatch_few("C21", Both, ["operation"],
        "each drawing and hint operator but masks on the 2 smallest numbers of operands it takes, first or after another one, followed by the same again")
    {
        let (code, operator) = CLEARING[choose(CLEARING.len() - 2)];
        let mut counts = (0..20).filter(|n| legal(operator, *n));
        let count = match (counts.next(), counts.next()) {
            (Some(one), Some(other)) => [one, other][choose(2)],
            (one, _) => one.unwrap_or(0),
        };
        let mut program = vec![];
        let before = choose(3);
        match before {
            0 => {}
            1 => program.extend_from_slice(&[140, 22]),
            _ => program.extend_from_slice(&[140, 141, 142, 143, 1]),
        }
        for _ in 0..2 {
            for _ in 0..count {
                small(&mut program);
            }
            emit(&mut program, code);
        }
        let before = (before > 0) as usize;
        let outcome = plain(&program);
        watch(&outcome);
        reach!("operation");
        check!(!outcome.failed, "C21 every supported operator is executed");
        check!(
            outcome.operations.len() == before + 2
                && outcome.operations[before..].iter().all(|operation| operation.0 == operator),
            "C21 an operation has its operator"
        );
    }

    fn h_program_arity("C22", Quick, ["legal", "illegal"],
        "each operator with 0 to 17 symbolic operands, followed by another operator with 0 to 1 operands")
    {
        arity(17);
    }

    fn h_program_arity_more("C22", Both, ["legal", "illegal"],
        "each operator with 0 to 48 symbolic operands, followed by another operator with 0 to 1 operands")
    {
        arity(48);
    }

    fn h_program_arity_again("C22", Both, ["legal"],
        "each operator in its shortest form with 0 to 3 operands in excess after another operation")
    {
        let (code, operator) = CLEARING[choose(21)];
        let m = (1..).find(|m| legal(operator, *m)).unwrap_or(0);
        let mut program = vec![140, 22];
        let excess = choose(4);
        let values: Vec<f32> = (0..m + excess).map(|_| small(&mut program)).collect();
        emit(&mut program, code);
        let outcome = plain(&program);
        watch(&outcome);
        reach!("legal");
        let n = take(operator, m + excess).unwrap_or(0);
        check!(
            !outcome.failed && outcome.operations.len() == 2 && outcome.operations[1].0 == operator
                && equal(&outcome.operations[1].1, &values[m + excess - n..]),
            "C22 an operation has the longest legal run of operands that precede it, in order"
        );
    }

    fn h_program_arity_nested("C22", Both, ["legal", "illegal"],
        "each operator with 0 to 14 symbolic operands, the operator being in a subroutine with or without its operands, 1 to 3 or 10 levels deep, followed by another operator")
    {
        let (code, operator) = CLEARING[choose(21)];
        let n = choose(15);
        let mut operands = vec![];
        let values: Vec<f32> = (0..n).map(|_| small(&mut operands)).collect();
        let mut body = vec![];
        emit(&mut body, code);
        let mut tail = vec![];
        let one = small(&mut tail);
        tail.push(22);
        let outcome = if choose(2) == 0 {
            relocated(&operands, &body, &tail)
        } else {
            relocated(&[], &[&operands[..], &body].concat(), &tail)
        };
        watch(&outcome);
        match take(operator, n) {
            Some(m) => {
                reach!("legal");
                check!(
                    !outcome.failed && outcome.operations.len() == 2 && outcome.operations[0].0 == operator
                        && equal(&outcome.operations[0].1, &values[n - m..]),
                    "C22 an operation has the longest legal run of operands that precede it, in order"
                );
                check!(
                    outcome.operations.len() == 2 && equal(&outcome.operations[1].1, &[one]),
                    "C22 no operands are left after an operation"
                );
            }
            _ => {
                reach!("illegal");
                check!(
                    outcome.failed && outcome.operations.is_empty(),
                    "C22 an operator without enough operands is rejected"
                );
            }
        }
    }

    fn h_program_width_nested("C23", Both, ["width", "no width"],
        "each operator that can come first with and without a symbolic width, the operator being in a subroutine with or without its operands, 1 to 3 or 10 levels deep, followed by an operator with an operand in excess")
    {
        let present = choose(2) == 1;
        let mut operands = vec![];
        let mut width = 0.0;
        if present {
            width = small(&mut operands);
        }
        let (code, n, mask) = [
            (1, 2, false), (3, 4, false), (18, 2, false), (23, 4, false), (19, 2, true), (20, 4, true),
            (19, 0, false), (20, 0, false), (21, 2, false), (22, 1, false), (4, 1, false), (14, 0, false), (14, 4, false),
        ][choose(13)];
        for _ in 0..n {
            small(&mut operands);
        }
        let mut body = vec![code];
        if mask {
            body.push(byte());
        }
        let (tail, count): (&[u8], usize) = if code == 14 {
            (&[], 0)
        } else {
            (&[140, 141, 142, 21, 14], 2)
        };
        let outcome = if code == 14 {
            // nothing may follow in the subroutines that lead to the end
            if choose(2) == 0 {
                run(&[&operands[..], &[32, 10]].concat(), &[], &[vec![14]], 100)
            } else {
                run(&[32, 29], &[[&operands[..], &body].concat()], &[], 100)
            }
        } else if choose(2) == 0 {
            relocated(&operands, &body, tail)
        } else {
            relocated(&[], &[&operands[..], &body].concat(), tail)
        };
        watch(&outcome);
        if present {
            reach!("width");
        } else {
            reach!("no width");
        }
        check!(!outcome.failed && outcome.operations.len() == count, "C23 a program with a width gives its operations");
        check!(
            match outcome.width {
                Some(value) => present && value == width,
                _ => !present,
            },
            "C23 the width is the operand in excess of the first operation if any, and nothing changes it"
        );
    }

    fn h_program_width("C23", Both, ["width", "no width"],
        "each operator that can come first, with up to 3 pairs of hints, with and without a symbolic width, followed by any of 9 operators with and without an operand in excess, followed by the end with 0 to 1 operands")
    {
        let mut program = vec![];
        let present = choose(2) == 1;
        let mut width = 0.0;
        if present {
            width = small(&mut program);
        }
        let mut stems = 0;
        let first = choose(11);
        match first {
            0..=5 => {
                stems = if first < 4 { 1 + choose(3) } else { choose(4) };
                for _ in 0..2 * stems {
                    small(&mut program);
                }
                program.push([1, 3, 18, 23, 19, 20][first]);
                if first >= 4 && stems > 0 {
                    program.push(byte());
                }
            }
            6 => {
                small(&mut program);
                small(&mut program);
                program.push(21);
            }
            7 | 8 => {
                small(&mut program);
                program.push([22, 4][first - 7]);
            }
            _ => {
                // at once or with an accented character
                for _ in 0..4 * (first - 9) {
                    small(&mut program);
                }
                program.push(14);
            }
        }
        let ended = first >= 9;
        let expected = |found: Option<f32>| match found {
            Some(value) => present && value == width,
            _ => !present,
        };
        if !ended {
            if choose(2) == 1 {
                small(&mut program);
            }
            let (code, n) = [(1, 2), (3, 4), (18, 2), (19, 0), (20, 0), (21, 2), (22, 1), (4, 1), (5, 2)][choose(9)];
            for _ in 0..n {
                small(&mut program);
            }
            program.push(code);
            stems += match code {
                1 | 18 => 1,
                3 => 2,
                _ => 0,
            };
            if code >= 19 && code <= 20 && stems > 0 {
                program.push(byte());
            }
            for _ in 0..choose(2) {
                small(&mut program);
            }
            program.push(14);
        }
        let mut program = Program::new(&program, &[], &[]);
        check!(program.width().is_none(), "C23 there is no width before the first operation");
        let mut count = 0;
        while let Ok(Some(_)) = program.next() {
            count += 1;
            observe(program.width().map_or(!0, |width| width.to_bits() as u64));
            check!(
                expected(program.width()),
                "C23 the width is the operand in excess of the first operation if any, and nothing changes it"
            );
        }
        check!(count == if ended { 0 } else { 2 }, "C23 a program with a width gives its operations");
        if present {
            reach!("width");
        } else {
            reach!("no width");
        }
        check!(
            expected(program.width()),
            "C23 the width is the operand in excess of the first operation if any, and nothing changes it"
        );
    }

    fn h_program_width_value("C23", Both, ["width"],
        "a width of any form and any value, before computations on further operands")
    {
        let mut program = vec![];
        let width = any(&mut program);
        let other = small(&mut program);
        if choose(2) == 1 {
            emit(&mut program, 0xc1b);
            emit(&mut program, 0xc12);
        }
        program.push(22);
        let outcome = plain(&program);
        watch(&outcome);
        reach!("width");
        check!(only(&outcome, Operator::HMoveTo, &[other]), "C23 a width is no operand of an operation");
        check!(
            outcome.width.is_some() && close(outcome.width.unwrap_or(0.0), width),
            "C23 the width is the operand in excess of the first operation if any, and nothing changes it"
        );
    }

    fn h_program_mask("C24", Both, ["masked"],
        "0 to 33 stems declared by 2 operators, 0 to 2 more by the mask itself, with and without a width, masks of any bytes, twice")
    {
        let mut program = vec![];
        let width = choose(2) == 1;
        if width {
            small(&mut program);
        }
        let before = choose(34);
        let mut left = before;
        let mut count = 0;
        for (code, limit) in [(18, 16), (23, 17)] {
            let n = left.min(limit);
            if n > 0 {
                for _ in 0..2 * n {
                    program.push(140);
                }
                program.push(code);
                count += 1;
                left -= n;
            }
        }
        let own = choose(3);
        for _ in 0..2 * own {
            program.push(140);
        }
        let stems = before + own;
        let mask = bytes::<10>();
        let size = (stems + 7) / 8;
        let first = choose(2);
        program.push([19, 20][first]);
        program.extend_from_slice(&mask[..size]);
        program.push([20, 19][first]);
        program.extend_from_slice(&mask[5..5 + size]);
        let x = small(&mut program);
        program.push(22);
        let outcome = plain(&program);
        watch(&outcome);
        reach!("masked");
        let kinds = [Operator::HintMask, Operator::CntrMask];
        check!(!outcome.failed, "C24 a mask is as long as the stems require, whatever it contains");
        check!(
            outcome.operations.len() == count + 3
                && outcome.operations[count].0 == kinds[first]
                && outcome.operations[count + 1].0 == kinds[1 - first]
                && outcome.operations[count + 2].0 == Operator::HMoveTo
                && equal(&outcome.operations[count + 2].1, &[x]),
            "C24 a mask is as long as the stems require, whatever it contains"
        );
    }

    fn h_program_mask_many("C24", Both, ["masked"],
        "0 to 96 stems declared 8 or 3 at a time, or up to 2049 stems 24 at a time, a mask of any bytes")
    {
        let step = [8, 3, 24][choose(3)];
        let stems = match step {
            24 => [127, 128, 248, 249, 255, 256, 257, 264, 511, 512, 513, 2041, 2048, 2049][choose(14)],
            _ => choose(97),
        };
        let mut program = vec![];
        let mut left = stems;
        let mut count = 0;
        while left > 0 {
            let n = left.min(step);
            for _ in 0..2 * n {
                program.push(140);
            }
            program.push(if count % 2 == 0 { 1 } else { 3 });
            count += 1;
            left -= n;
        }
        program.push(19);
        let mask = bytes::<257>();
        program.extend_from_slice(&mask[..(stems + 7) / 8]);
        program.extend_from_slice(&[141, 4]);
        let outcome = plain(&program);
        reach!("masked");
        check!(
            !outcome.failed
                && outcome.operations.len() == count + 2
                && outcome.operations[count + 1].0 == Operator::VMoveTo
                && equal(&outcome.operations[count + 1].1, &[2.0]),
            "C24 a mask is as long as the stems require, whatever it contains"
        );
    }

    fn h_program_mask_nested("C24", Both, ["masked"],
        "0 to 18 stems declared before, in, or both before and in a subroutine 1 to 3 or 10 levels deep, a mask of any bytes in it, and another one after it")
    {
        let stems = choose(19);
        let outside = [0, stems / 2, stems][choose(3)];
        let mask = bytes::<6>();
        let size = (stems + 7) / 8;
        let mut count = 0;
        let mut declare = |code: &mut Vec<u8>, n: usize| {
            for _ in 0..2 * n {
                code.push(140);
            }
            if n > 0 {
                code.push(18);
                count += 1;
            }
        };
        let (mut head, mut body, mut tail) = (vec![], vec![], vec![]);
        declare(&mut head, outside);
        declare(&mut body, stems - outside);
        let first = choose(2);
        body.push([19, 20][first]);
        body.extend_from_slice(&mask[..size]);
        tail.push([20, 19][first]);
        tail.extend_from_slice(&mask[3..3 + size]);
        let x = small(&mut tail);
        tail.push(22);
        let outcome = relocated(&head, &body, &tail);
        watch(&outcome);
        reach!("masked");
        let kinds = [Operator::HintMask, Operator::CntrMask];
        check!(
            !outcome.failed
                && outcome.operations.len() == count + 3
                && outcome.operations[count].0 == kinds[first]
                && outcome.operations[count + 1].0 == kinds[1 - first]
                && outcome.operations[count + 2].0 == Operator::HMoveTo
                && equal(&outcome.operations[count + 2].1, &[x]),
            "C24 a mask is as long as the stems require, whatever it contains"
        );
    }

    fn h_program_mask_truncated("C24", Both, ["truncated"], "1 to 20 stems and a mask that is shorter by any number of bytes") {
        let stems = 1 + choose(20);
        let mut program = vec![];
        for _ in 0..2 * stems {
            program.push(140);
        }
        program.push(18);
        program.push(19);
        let mask = bytes::<3>();
        program.extend_from_slice(&mask[..choose((stems + 7) / 8)]);
        let outcome = plain(&program);
        reach!("truncated");
        check!(outcome.failed & (outcome.operations.len() == 1), "C24 a truncated mask is rejected");
    }

    fn h_program_arithmetic("C25", Both, ["computed", "underflow"],
        "each operator on the stack with 0 to 4 operands that are any fixed-point numbers")
    {
        chain(4, 1, |code| taken(code, fixed));
    }

    fn h_program_arithmetic_chain("C25", Quick, ["computed", "underflow"],
        "all sequences of 2 operators on the stack with 0 to 4 symbolic one-byte integers")
    {
        chain(4, 2, |code| taken(code, small));
    }

    fn h_program_arithmetic_chain_more("C25", Both, ["computed", "underflow"],
        "all sequences of 3 operators on the stack with 0 to 4 symbolic one-byte integers")
    {
        chain(4, 3, |code| taken(code, small));
    }

    fn h_program_arithmetic_nested("C25", Both, ["computed", "underflow"],
        "each operator on the stack with 0 to 4 symbolic one-byte integers, in a subroutine 1 to 3 or 10 levels deep")
    {
        let (mut head, mut body) = (vec![], vec![]);
        let mut stack: Vec<f32> = (0..choose(5)).map(|_| small(&mut head)).collect();
        let code = ARITHMETIC[choose(ARITHMETIC.len())];
        emit(&mut body, code);
        let failed = compute(code, &mut stack) || stack.is_empty();
        let outcome = relocated(&head, &body, &[6]);
        watch(&outcome);
        if failed {
            reach!("underflow");
            check!(
                outcome.failed && outcome.operations.is_empty(),
                "C25 an operator without enough operands is rejected"
            );
        } else {
            reach!("computed");
            check!(
                only(&outcome, Operator::HLineTo, &stack),
                "C25 an operator replaces its operands by its results"
            );
        }
    }

    fn h_program_arithmetic_deep("C25", Both, ["computed"],
        "each operator on the stack under 5 to 60 further operands")
    {
        let mut program = vec![];
        let mut stack: Vec<f32> = (0..5 + choose(56)).map(|i| {
            number(&mut program, i as i32 - 30);
            (i as i32 - 30) as f32
        }).collect();
        let more: Vec<f32> = (0..4).map(|_| small(&mut program)).collect();
        stack.extend_from_slice(&more);
        let code = ARITHMETIC[choose(ARITHMETIC.len())];
        emit(&mut program, code);
        compute(code, &mut stack);
        program.push(6);
        let outcome = plain(&program);
        watch(&outcome);
        reach!("computed");
        check!(
            only(&outcome, Operator::HLineTo, &stack),
            "C25 an operator replaces its operands by its results"
        );
    }

    fn h_program_index("C25", Both, ["indexed", "negative", "underflow"],
        "1 to 6 operands of any values and any index from -32768 to 32767")
    {
        index(1 + choose(6));
    }

    fn h_program_index_deep("C25", Both, ["indexed", "negative", "underflow"],
        "8, 17, 33, 48, 65, 129, and 300 operands of any values and any index from -32768 to 32767")
    {
        index([8, 17, 33, 48, 65, 129, 300][choose(7)]);
    }

    fn h_program_roll("C25", Both, ["rolled", "underflow", "negative"],
        "1 to 6 operands of any values, any span from -32768 to 32767, any shift from -32768 to 32767")
    {
        roll(1 + choose(6), None);
    }

    fn h_program_roll_deep("C25", Both, ["rolled"],
        "10, 17, 33, 48, and 65 operands of any values, spans of 7, 9, and all of them but 0 to 1, any shift from -32768 to 32767")
    {
        let n = [10, 17, 33, 48, 65][choose(5)];
        roll(n, Some([7, 9, n as u16 - 1, n as u16][choose(4)]));
    }

    fn h_program_roll_deep_more("C25", Thorough, ["rolled", "underflow", "negative"],
        "7 to 24 operands of any values, any span from -32768 to 32767, any shift from -32768 to 32767")
    {
        roll(7 + choose(18), None);
    }

    fn h_program_roll_extreme("C25", Both, ["rolled", "rejected"],
        "3 operands of any values, spans of -1 to 4, shifts from the smallest to the largest integer there is and beyond, fractions, infinities, and what is no number")
    {
        let mut program = vec![];
        let stack: Vec<f32> = (0..3).map(|_| small(&mut program)).collect();
        let span = choose(6) as i32 - 1;
        number(&mut program, span);
        let shift = extreme(&mut program);
        emit(&mut program, 0xc1e);
        program.push(6);
        let outcome = plain(&program);
        watch(&outcome);
        if shift == 2147483648.0 {
            // not an integer as far as programs are concerned, whether it is for rolls
            return;
        }
        if span < 0 || span > 3 || shift as i32 as f32 != shift {
            reach!("rejected");
            check!(outcome.failed & outcome.operations.is_empty(), "C25 a roll by no integer, of a negative span, or past the operands is rejected");
            return;
        }
        reach!("rolled");
        let mut expected = stack.clone();
        if span > 0 {
            let n = span as usize;
            let shift = (shift as i64).rem_euclid(span as i64) as usize;
            for i in 0..n {
                expected[3 - n + (i + shift) % n] = stack[3 - n + i];
            }
        }
        check!(only(&outcome, Operator::HLineTo, &expected), "C25 a roll rotates the operands of its span towards the top");
    }

    fn h_program_index_extreme("C25", Both, ["indexed", "rejected"],
        "3 operands of any values and an index from the smallest to the largest integer there is and beyond, fractions, infinities, and what is no number")
    {
        let mut program = vec![];
        let mut stack: Vec<f32> = (0..3).map(|_| small(&mut program)).collect();
        let i = extreme(&mut program);
        emit(&mut program, 0xc1d);
        program.push(6);
        let outcome = plain(&program);
        watch(&outcome);
        if i as i32 as f32 == i && i < 3.0 {
            reach!("indexed");
            stack.push(stack[2 - i.max(0.0) as usize]);
            check!(only(&outcome, Operator::HLineTo, &stack), "C25 an index copies the operand it selects");
        } else {
            reach!("rejected");
            check!(outcome.failed & outcome.operations.is_empty(), "C25 an index past the operands is rejected");
        }
    }

    fn h_program_call_extreme("C26", Both, ["missing", "called"],
        "3 or 1300 subroutines, local or global, called by any of the extreme operands")
    {
        let count = [3, 1300][choose(2)];
        let routines = vec![vec![11]; count];
        let mut program = vec![];
        let i = extreme(&mut program);
        let global = choose(2);
        program.push([10, 29][global]);
        program.extend_from_slice(&[140, 22]);
        let outcome = if global == 0 { run(&program, &[], &routines, 10) } else { run(&program, &routines, &[], 10) };
        watch(&outcome);
        let k = i as f64 + bias(count) as f64;
        if k.fract() == 0.0 && k >= 0.0 && k < count as f64 {
            reach!("called");
            check!(only(&outcome, Operator::HMoveTo, &[1.0]), "C26 a call of an existing subroutine is accepted");
        } else {
            reach!("missing");
            check!(outcome.failed & outcome.operations.is_empty(), "C26 a call of a missing subroutine is rejected");
        }
    }

    fn h_program_bias("C26", Both, ["called", "missing"],
        "local and global subroutines, 13 numbers of them around the boundaries of the bias, the first, second, and last ones, and those past the ends, with a symbolic operand inside")
    {
        let count = [1, 2, 3, 215, 216, 1239, 1240, 1241, 2400, 33899, 33900, 33901, 65535][choose(13)];
        let which = choose(5);
        let k = match which {
            0 => 0,
            1 => count as i32 - 1,
            2 => 1.min(count as i32 - 1),
            3 => -1,
            _ => count as i32,
        };
        let address = k - bias(count);
        if !(-32768..=32767).contains(&address) {
            return;
        }
        let mut body = vec![];
        let x = small(&mut body);
        body.extend_from_slice(&[22, 11]);
        let mut routines = vec![vec![]; count];
        if k >= 0 && (k as usize) < count {
            routines[k as usize] = body;
        }
        let mut program = vec![];
        number(&mut program, address);
        let none: Vec<Vec<u8>> = vec![];
        let outcome = if choose(2) == 0 {
            program.extend_from_slice(&[10, 14]);
            run(&program, &none, &routines, 10)
        } else {
            program.extend_from_slice(&[29, 14]);
            run(&program, &routines, &none, 10)
        };
        if which < 3 {
            reach!("called");
            check!(only(&outcome, Operator::HMoveTo, &[x]), "C26 a call reaches the subroutine that the bias of their number gives");
        } else {
            reach!("missing");
            check!(outcome.failed & outcome.operations.is_empty(), "C26 a call of a missing subroutine is rejected");
        }
    }

    fn h_program_bias_operand("C26", Both, ["called", "missing"],
        "5 subroutines, local or global, against any integer from -32768 to 32767 and any fixed-point number")
    {
        let routines: Vec<Vec<u8>> = (0..5u8).map(|i| vec![140 + i, 22, 11]).collect();
        let mut program = vec![];
        let value = if choose(2) == 0 {
            let value = u16();
            program.push(28);
            program.extend_from_slice(&value.to_be_bytes());
            (value as i16 as i64) << 16
        } else {
            let value = u32();
            program.push(255);
            program.extend_from_slice(&value.to_be_bytes());
            // what is not exact when read is of no interest
            assume((value as i32).unsigned_abs() < 1 << 24);
            value as i32 as i64
        };
        let global = choose(2);
        program.push([10, 29][global]);
        let outcome = if global == 0 { run(&program, &[], &routines, 10) } else { run(&program, &routines, &[], 10) };
        let k = (value >> 16) + 107;
        let fine = (value & 0xffff == 0) & (k >= 0) & (k < 5);
        if outcome.failed {
            reach!("missing");
            check!(!fine, "C26 a call of an existing subroutine is accepted");
        } else {
            reach!("called");
            check!(fine, "C26 a call of a missing subroutine is rejected");
            let k = split(k as u64) as f32;
            check!(only(&outcome, Operator::HMoveTo, &[k + 1.0]), "C26 a call reaches the subroutine that the bias of their number gives");
        }
    }

    fn h_program_tables("C26", Both, ["called"],
        "programs that call local, global, and both kinds of subroutines, with different symbolic operands in each")
    {
        let (x, y) = (between(32, 246), between(32, 246));
        let local = vec![vec![x, 22, 11]];
        let global = vec![vec![y, 4, 11]];
        let (f, g) = ((x as i32 - 139) as f32, (y as i32 - 139) as f32);
        let outcome = match choose(3) {
            0 => {
                let outcome = run(&[32, 10, 32, 29, 14], &global, &local, 10);
                check!(
                    !outcome.failed && outcome.operations.len() == 2
                        && outcome.operations[0].0 == Operator::HMoveTo && equal(&outcome.operations[0].1, &[f])
                        && outcome.operations[1].0 == Operator::VMoveTo && equal(&outcome.operations[1].1, &[g]),
                    "C26 local and global subroutines are told apart"
                );
                outcome
            }
            1 => {
                let outcome = run(&[32, 10], &global, &[], 10);
                check!(outcome.failed, "C26 local and global subroutines are told apart");
                outcome
            }
            _ => {
                let outcome = run(&[32, 29], &[], &local, 10);
                check!(outcome.failed, "C26 local and global subroutines are told apart");
                outcome
            }
        };
        watch(&outcome);
        reach!("called");
    }

    fn h_program_inline("C26", Quick, ["local", "global", "nested"],
        "local, global, and nested calls after 0 to 2 operands, with bodies of up to 2 tokens out of 8 kinds with symbolic values and masks, followed by 1 more token")
    {
        inline(choose(3), choose(3), 1);
    }

    fn h_program_inline_more("C26", Both, ["local", "global", "nested"],
        "local, global, and nested calls after 0 to 2 operands, with bodies of up to 3 tokens out of 8 kinds with symbolic values and masks, followed by 2 more tokens")
    {
        inline(choose(3), choose(4), 2);
    }

    fn h_program_inline_deep("C26", Both, ["called"],
        "calls 1 to 3 or 10 levels deep after 0 to 2 operands, with bodies of up to 2 tokens out of 8 kinds with symbolic values and masks, followed by 1 more token")
    {
        let (mut head, mut body, mut tail) = (vec![], vec![], vec![]);
        for _ in 0..choose(3) {
            small(&mut head);
        }
        for _ in 0..choose(3) {
            token(&mut body);
        }
        token(&mut tail);
        tail.push(6);
        let outcome = relocated(&head, &body, &tail);
        let expected = plain(&[head, body, tail].concat());
        watch(&outcome);
        reach!("called");
        alike(&outcome, &expected);
    }

    fn h_program_return("C26", Both, ["rejected"], "a return outside of subroutines after 0 to 2 operands or an operation") {
        let mut program = vec![];
        for _ in 0..choose(3) {
            small(&mut program);
        }
        if choose(2) == 1 {
            program.extend_from_slice(&[140, 22]);
        }
        let count = (program.len() > 1 && program[program.len() - 1] == 22) as usize;
        program.extend_from_slice(&[11, 140, 22]);
        let outcome = plain(&program);
        reach!("rejected");
        check!(outcome.failed & (outcome.operations.len() == count), "C26 a return without a call is rejected");
    }

    fn h_program_end("C27", Both, ["ended"],
        "0 to 2 operations, the end operator on 0, 1, 4, or 5 operands, directly or in a local or global subroutine, nested or not, with 0 to 4 further symbolic bytes after it or after the call")
    {
        let count = choose(3);
        let mut program = vec![];
        for _ in 0..count {
            small(&mut program);
            program.push(22);
        }
        for _ in 0..[0, 1, 4, 5][choose(4)] {
            small(&mut program);
        }
        let junk = bytes::<4>();
        let n = choose(5);
        let none: Vec<Vec<u8>> = vec![];
        let (mut local, mut global) = (none.clone(), none);
        match choose(4) {
            0 => program.push(14),
            1 => {
                program.extend_from_slice(&[32, 10]);
                local = vec![vec![14]];
            }
            2 => {
                program.extend_from_slice(&[32, 29]);
                global = vec![vec![14]];
            }
            _ => {
                program.extend_from_slice(&[32, 10]);
                local = vec![vec![32, 29]];
                if choose(2) == 1 {
                    local[0].extend_from_slice(&[11]);
                }
                global = vec![vec![14]];
            }
        }
        let nested = local.len() == 1 && local[0].len() == 3;
        program.extend_from_slice(&junk[..n]);
        let mut program = Program::new(&program, &global, &local);
        for _ in 0..count {
            match program.next() {
                Ok(Some((operator, _))) => check!(operator == Operator::HMoveTo, "C27 operations before the end are given"),
                _ => check!(false, "C27 operations before the end are given"),
            }
        }
        if nested {
            // whether a return may remain in the caller of the subroutine with the end is not specified
            return;
        }
        for _ in 0..3 {
            match program.next() {
                Ok(None) => reach!("ended"),
                _ => check!(false, "C27 nothing follows the end operator"),
            }
        }
    }

    fn h_program_end_deep("C27", Both, ["ended"],
        "the end operator 1 to 10 levels deep in local and global subroutines after 0 to 12 calls that return, with 0 to 2 further symbolic bytes after it and the first call")
    {
        let depth = 1 + choose(10);
        let kind = choose(3);
        let count = [0, 1, 2, 12][choose(4)];
        let junk = bytes::<4>();
        let n = choose(3);
        let (mut local, mut global) = (vec![], vec![]);
        for i in 0..depth {
            let routine = if i + 1 < depth {
                vec![32 + i as u8 + 1, level(kind, i + 1)]
            } else {
                [&[14], &junk[..n]].concat()
            };
            local.push(routine.clone());
            global.push(routine);
        }
        local.push(vec![140, 22, 11]);
        let mut program = vec![];
        for _ in 0..count {
            program.extend_from_slice(&[32 + depth as u8, 10]);
        }
        program.extend_from_slice(&[32, level(kind, 0)]);
        program.extend_from_slice(&junk[2..2 + n]);
        if n > 0 {
            // whether anything may remain in the subroutine with the end is not specified
            local[depth - 1] = vec![14];
            global[depth - 1] = vec![14];
        }
        let count_before = count;
        let mut program = Program::new(&program, &global, &local);
        for _ in 0..count_before {
            check!(matches!(program.next(), Ok(Some(_))), "C27 operations before the end are given");
        }
        for _ in 0..3 {
            match program.next() {
                Ok(None) => reach!("ended"),
                _ => check!(false, "C27 nothing follows the end operator"),
            }
        }
    }

    fn h_program_empty("C27", Both, ["empty", "exhausted"],
        "no code at all, and code of 1 to 3 operations of symbolic operands or masks without the end operator, directly or in part in a subroutine")
    {
        if choose(2) == 0 {
            reach!("empty");
            let mut program = Program::new(&[], &[], &[]);
            for _ in 0..2 {
                check!(matches!(program.next(), Ok(None)), "C27 an empty program ends");
            }
            return;
        }
        reach!("exhausted");
        let mut code = vec![];
        let mut subroutine = vec![];
        let count = 1 + choose(3);
        for i in 0..count {
            let code = if i == 1 { &mut subroutine } else { &mut code };
            match choose(3) {
                0 => {
                    small(code);
                    code.push(22);
                }
                1 => {
                    code.extend_from_slice(&[255, byte(), byte(), byte(), byte(), 139, 21]);
                }
                _ => {
                    small(code);
                    small(code);
                    // the stems so far and the one here
                    code.push(19);
                    code.push(byte());
                }
            }
        }
        if count > 1 {
            // after the first operation
            let rest = if count > 2 { code.split_off(code.len()) } else { vec![] };
            code.extend_from_slice(&[32, 10]);
            code.extend_from_slice(&rest);
            subroutine.push(11);
        }
        let local = vec![subroutine];
        let mut program = Program::new(&code, &[], &local);
        for _ in 0..count {
            check!(matches!(program.next(), Ok(Some(_))), "C27 operations before the end are given");
        }
        for _ in 0..2 {
            check!(matches!(program.next(), Ok(None)), "C27 a program without the end operator ends with its code");
        }
    }

    fn h_program_arbitrary("C03", Quick, ["accepted", "rejected"], "all programs of 0 to 4 bytes") {
        arbitrary::<4>();
    }

    fn h_program_arbitrary_more("C03", Both, ["accepted", "rejected"], "all programs of 0 to 5 bytes") {
        arbitrary::<5>();
    }

    fn h_program_arbitrary_subroutine("C03", Quick, ["accepted", "rejected"],
        "all programs of 2 bytes calling any local subroutine of 2 bytes, with a global one of 1 byte")
    {
        subroutines::<1, 2, 1>();
    }

    fn h_program_arbitrary_subroutine_more("C03", Both, ["accepted", "rejected"],
        "all programs of 2 bytes after a call of any local subroutine of 3 bytes, with a global one of 2 bytes")
    {
        subroutines::<2, 3, 2>();
    }

    fn h_program_arbitrary_operands("C03", Both, ["accepted", "rejected"],
        "any operator after 0 to 3 operands that are any fixed-point numbers or any integers, with 3 local and global subroutines")
    {
        if arbitrary_operands() {
            reach!("accepted");
        } else {
            reach!("rejected");
        }
    }

    fn h_program_arbitrary_further("C03", Both, ["asked"],
        "all programs of 0 to 3 bytes with or without one more in a subroutine of their own, asked three more times after an error or the end")
    {
        let b = bytes::<3>();
        let n = choose(4);
        let routines = vec![[&b[..n], &[5][..]].concat()];
        if choose(2) == 0 {
            further(&b[..n], &[], &[]);
        } else {
            further(&[139, 32, 10, 29, 22], &[], &routines);
        }
        reach!("asked");
    }

    fn h_program_arbitrary_extreme("C03", Both, ["accepted", "rejected"],
        "operators that interpret operands as integers after computations that give values beyond the range of integers")
    {
        let mut program = vec![];
        // up to 2^60, of any sign, or none at all
        number(&mut program, 1);
        number(&mut program, 2);
        for _ in 0..2 {
            number(&mut program, [32767, -32768, 16384, 2][choose(4)]);
            let n = choose(4);
            for _ in 0..n {
                number(&mut program, [32767, -32768][choose(2)]);
                emit(&mut program, 0xc18);
            }
            if choose(2) == 1 {
                number(&mut program, 0);
                emit(&mut program, 0xc0c);
            }
        }
        let code = [0xc1d, 0xc1e, 10, 29][choose(4)];
        emit(&mut program, code);
        program.push(6);
        let routines = vec![vec![11]];
        let outcome = run(&program, &routines, &routines, 10);
        if outcome.failed {
            reach!("rejected");
        } else {
            reach!("accepted");
        }
    }

    fn h_program_extreme("C03", Both, ["accepted", "rejected"],
        "any operator after 0 to 2 small operands and 1 to 2 extreme ones")
    {
        if extremes() {
            reach!("accepted");
        } else {
            reach!("rejected");
        }
    }

    fn h_program_extreme_end("C04", Both, ["ended"],
        "any operator after 0 to 2 small operands and 1 to 2 extreme ones")
    {
        extremes();
        reach!("ended");
    }

    fn h_program_nesting("C04", Both, ["nested"],
        "chains of 1 to 10 nested calls through local and global subroutines, with a symbolic operand at the end")
    {
        let depth = 1 + choose(10);
        let kind = choose(3);
        let mut body = vec![];
        let x = small(&mut body);
        body.extend_from_slice(&[22, 11]);
        // each calls the next one
        let mut local = vec![];
        let mut global = vec![];
        for i in 0..depth {
            let is_local = |i: usize| match kind {
                0 => true,
                1 => false,
                _ => i % 2 == 0,
            };
            let routine = if i + 1 < depth {
                let code = if is_local(i + 1) { 10 } else { 29 };
                vec![32 + i as u8 + 1, code, 11]
            } else {
                body.clone()
            };
            // the same number in both tables
            local.push(if is_local(i) { routine.clone() } else { vec![14] });
            global.push(if is_local(i) { vec![14] } else { routine });
        }
        let program = [32, if kind == 1 { 29 } else { 10 }, 140, 4];
        let outcome = run(&program, &global, &local, 10);
        watch(&outcome);
        reach!("nested");
        check!(
            !outcome.failed && outcome.operations.len() == 2
                && outcome.operations[0].0 == Operator::HMoveTo && equal(&outcome.operations[0].1, &[x])
                && outcome.operations[1].0 == Operator::VMoveTo && equal(&outcome.operations[1].1, &[1.0]),
            "C04 up to ten nested calls are executed"
        );
    }

    fn h_program_nesting_again("C04", Both, ["nested"],
        "chains of 1 to 10 nested calls through local and global subroutines, of which the call at any two levels is made 2 to 3 times")
    {
        let depth = 1 + choose(10);
        let kind = choose(3);
        let mut body = vec![];
        let x = small(&mut body);
        body.extend_from_slice(&[22, 11]);
        let times = 2 + choose(2);
        let (one, other) = (choose(depth), choose(depth));
        let repeat = |i: usize| if i == one || i == other { times } else { 1 };
        let mut calls = 1;
        let (mut local, mut global) = (vec![], vec![]);
        for i in 0..depth {
            calls *= repeat(i);
            let routine = if i + 1 < depth {
                let mut routine = vec![];
                for _ in 0..repeat(i + 1) {
                    routine.extend_from_slice(&[32 + i as u8 + 1, level(kind, i + 1)]);
                }
                routine.push(11);
                routine
            } else {
                body.clone()
            };
            let is_local = level(kind, i) == 10;
            local.push(if is_local { routine.clone() } else { vec![14] });
            global.push(if is_local { vec![14] } else { routine });
        }
        let mut program = vec![];
        for _ in 0..repeat(0) {
            program.extend_from_slice(&[32, level(kind, 0)]);
        }
        program.extend_from_slice(&[140, 4]);
        let outcome = run(&program, &global, &local, 20);
        watch(&outcome);
        reach!("nested");
        let mut fine = !outcome.failed & (outcome.operations.len() == calls + 1);
        for i in 0..calls.min(outcome.operations.len()) {
            fine &= outcome.operations[i].0 == Operator::HMoveTo && equal(&outcome.operations[i].1, &[x]);
        }
        check!(fine, "C04 up to ten nested calls are executed");
    }

    fn h_program_nesting_beyond("C04", Both, ["rejected"],
        "chains of 11 to 14 nested calls after 0 to 12 chains of 1 to 10 nested calls")
    {
        let kind = choose(3);
        let (mut local, mut global) = (vec![], vec![]);
        // the first one of 20 makes for the deepest chain
        for i in 0..20u8 {
            let routine = if i < 19 { vec![32 + i + 1, level(kind, i as usize + 1), 11] } else { vec![140, 22, 11] };
            local.push(routine.clone());
            global.push(routine);
        }
        let mut program = vec![];
        let count = choose(13);
        let depth = [1, 9, 10][choose(3)];
        for _ in 0..count {
            program.extend_from_slice(&[32 + 20 - depth as u8, level(kind, 20 - depth)]);
        }
        let beyond = 11 + choose(4);
        program.extend_from_slice(&[32 + 20 - beyond as u8, level(kind, 20 - beyond)]);
        let outcome = run(&program, &global, &local, 20);
        reach!("rejected");
        check!(outcome.failed & (outcome.operations.len() == count), "C04 more than ten nested calls are rejected");
    }

    fn h_program_calls("C04", Both, ["executed"],
        "1 to 40 calls one after another, each of them of 1 to 3 nested levels")
    {
        let count = 1 + choose(40);
        let depth = 1 + choose(3);
        let mut x = vec![];
        let value = small(&mut x);
        let local: Vec<Vec<u8>> = (0..depth)
            .map(|i| if i + 1 < depth { vec![32 + i as u8 + 1, 10, 11] } else { vec![x[0], 22, 11] })
            .collect();
        let mut program = vec![];
        for _ in 0..count {
            program.extend_from_slice(&[32, 10]);
        }
        program.push(14);
        let outcome = run(&program, &[], &local, 100);
        reach!("executed");
        let mut fine = !outcome.failed & (outcome.operations.len() == count);
        for operation in outcome.operations.iter() {
            fine &= equal(&operation.1, &[value]);
        }
        check!(fine, "C04 any number of calls one after another is executed");
    }

    fn h_program_recursion("C04", Both, ["rejected"],
        "endless recursion through 1 to 3 local and global subroutines, with 0 to 1 further operators")
    {
        let kind = choose(4);
        let mut extra = vec![];
        if choose(2) == 1 {
            extra.extend_from_slice(&[140, 12, 18]);
        }
        let call = |extra: &Vec<u8>, k: u8, code: u8| {
            let mut body = extra.clone();
            body.extend_from_slice(&[32 + k, code, 11]);
            body
        };
        let (local, global) = match kind {
            0 => (vec![call(&extra, 0, 10)], vec![]),
            1 => (vec![], vec![call(&extra, 0, 29)]),
            2 => (vec![call(&extra, 0, 29)], vec![call(&extra, 0, 10)]),
            _ => (vec![call(&extra, 1, 10), call(&extra, 2, 10), call(&extra, 0, 10)], vec![]),
        };
        let outcome = run(&[32, if kind == 1 { 29 } else { 10 }], &global, &local, 10);
        reach!("rejected");
        check!(outcome.failed & outcome.operations.is_empty(), "C04 endless recursion is rejected");
    }

    fn h_program_recursion_tail("C04", Both, ["rejected"],
        "endless recursion without returns, in a local or global subroutine")
    {
        let code = [10, 29][choose(2)];
        let routines = vec![vec![32, code]];
        let outcome = run(&[32, code], &routines, &routines, 10);
        reach!("rejected");
        check!(outcome.failed & outcome.operations.is_empty(), "C04 endless recursion is rejected");
    }

    fn h_program_recursion_any("C04", Quick, ["ended"],
        "all pairs of local subroutines of 2 bytes that call subroutines in any way")
    {
        recursion::<2>();
    }

    fn h_program_recursion_any_more("C04", Both, ["ended"],
        "all pairs of local subroutines of 3 bytes that call subroutines in any way")
    {
        recursion::<3>();
    }

    fn h_program_long("C04", Both, ["executed"],
        "20000 operators that give no operations, of 4 kinds, between a symbolic operand and its operation")
    {
        let mut program = vec![];
        let x = small(&mut program);
        let unit: &[u8] = [
            &[12, 14, 12, 14][..],
            &[140, 12, 18, 140, 12, 18],
            &[12, 27, 12, 18],
            &[140, 12, 28, 12, 18, 140, 12, 24],
        ][choose(4)];
        let local = vec![vec![11]];
        let mut left = 10_000;
        let mut last = x;
        if unit[0] == 140 && unit[1] == 12 && unit[2] == 28 {
            last = 1.0;
        }
        while left > 0 {
            program.extend_from_slice(unit);
            left -= 1;
        }
        program.extend_from_slice(&[32, 10, 22]);
        let outcome = run(&program, &[], &local, 10);
        reach!("executed");
        check!(only(&outcome, Operator::HMoveTo, &[last]), "C04 programs of any length are executed");
    }

    fn h_program_deep("C04", Both, ["executed"], "5000 operands on the stack, the last of them symbolic") {
        let mut program = vec![140; 4999];
        let x = small(&mut program);
        program.push(22);
        let outcome = run(&program, &[], &[], 10);
        reach!("executed");
        check!(only(&outcome, Operator::HMoveTo, &[x]), "C04 programs of any length are executed");
    }
}

fn arbitrary<const N: usize>() {
    let b = bytes::<N>();
    let n = choose(N + 1);
    let outcome = run(&b[..n], &[], &[], 10);
    watch(&outcome);
    if outcome.failed {
        reach!("rejected");
    } else {
        reach!("accepted");
    }
}

/// Keep asking after errors and the end.
fn further(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) {
    let mut program = Program::new(code, global, local);
    let mut count = 0;
    for _ in 0..10 {
        if !matches!(program.next(), Ok(Some(_))) {
            count += 1;
        }
        observe(program.width().map_or(!0, |width| width.to_bits() as u64));
        if count == 4 {
            break;
        }
    }
}

fn subroutines<const L: usize, const M: usize, const N: usize>() {
    let mut program = vec![32, 10];
    program.extend_from_slice(&bytes::<L>());
    let local = vec![bytes::<M>().to_vec(), vec![11]];
    let global = vec![bytes::<N>().to_vec()];
    let outcome = run(&program, &global, &local, 10);
    watch(&outcome);
    if outcome.failed {
        reach!("rejected");
    } else {
        reach!("accepted");
    }
}

fn recursion<const N: usize>() {
    let (one, other) = (bytes::<N>(), bytes::<N>());
    for routine in [&one, &other] {
        for k in 0..N {
            // calls, returns, and what selects either routine
            let b = routine[k];
            assume((b == 10) | (b == 29) | (b == 11) | (b == 32) | (b == 33) | (b == 14));
        }
    }
    let local = vec![one.to_vec(), other.to_vec()];
    run(&[32, 10, 33, 10, 14], &local, &local, 10);
    reach!("ended");
}
