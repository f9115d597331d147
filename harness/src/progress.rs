//! What programs do step by step.

use postscript::type2::{Operation, Operator, Program};

use crate::program::{close, equal, number, token};
use crate::sx::{assume, between, byte, bytes, choose, observe};
use crate::{check, harnesses, reach};

/// What a request for an operation gives and the width right after it.
struct Step {
    outcome: Option<Option<Operation>>,
    width: Option<f32>,
}

fn advance(program: &mut Program) -> Step {
    let outcome = program.next().ok();
    Step { outcome, width: program.width() }
}

/// Request operations until the end, or an error, or a number of them.
fn trace(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>], limit: usize) -> Vec<Step> {
    let mut program = Program::new(code, global, local);
    let mut steps = vec![];
    for _ in 0..limit {
        let step = advance(&mut program);
        let over = !matches!(step.outcome, Some(Some(_)));
        steps.push(step);
        if over {
            break;
        }
    }
    steps
}

fn same_width(one: Option<f32>, other: Option<f32>) -> bool {
    match (one, other) {
        (Some(one), Some(other)) => close(one, other),
        (None, None) => true,
        _ => false,
    }
}

fn same_operation(one: &Operation, other: &Operation) -> bool {
    one.0 == other.0 && equal(&one.1, &other.1)
}

fn same(one: &Step, other: &Step) -> bool {
    let fine = match (&one.outcome, &other.outcome) {
        (Some(Some(one)), Some(Some(other))) => same_operation(one, other),
        (Some(None), Some(None)) | (None, None) => true,
        _ => false,
    };
    fine && same_width(one.width, other.width)
}

/// The operations of the first are the first operations of the second.
fn extends(one: &[Step], other: &[Step]) {
    for (i, step) in one.iter().enumerate() {
        let operation = match &step.outcome {
            Some(Some(operation)) => operation,
            _ => {
                reach!("over");
                observe(i as u64);
                return;
            }
        };
        reach!("operation");
        observe(operation.0 as u64);
        observe(operation.1.len() as u64);
        let fine = match other.get(i).map(|step| &step.outcome) {
            Some(Some(Some(other))) => same_operation(operation, other),
            _ => false,
        };
        check!(fine, "C33 operations do not depend on the code after them");
        if !fine {
            return;
        }
        check!(same_width(step.width, other[i].width), "C33 the width after an operation does not depend on the code after it");
    }
}

fn before<const N: usize, const M: usize>() {
    let (one, other) = (bytes::<N>(), bytes::<M>());
    let one = &one[..choose(N + 1)];
    let routines = vec![vec![140, 22, 11], vec![11]];
    let alone = trace(one, &routines, &routines, 10);
    let whole = trace(&[one, &other].concat(), &routines, &routines, 10);
    extends(&alone, &whole);
}

fn tokens(limit: usize) {
    let mut code = vec![];
    for _ in 0..1 + choose(limit) {
        token(&mut code);
    }
    let after = bytes::<2>();
    let whole = [&code[..], &after[..]].concat();
    if choose(2) == 0 {
        extends(&trace(&code, &[], &[], 10), &trace(&whole, &[], &[], 10));
    } else {
        let (code, whole) = (vec![code], vec![whole]);
        extends(&trace(&[32, 10], &[], &code, 10), &trace(&[32, 10, after[0]], &[], &whole, 10));
    }
}

/// Alternate between two programs.
fn alternate(one: &[u8], other: &[u8], global: &[Vec<u8>], local: &[Vec<u8>], limit: usize) {
    let alone = [trace(one, global, local, limit), trace(other, global, local, limit)];
    let mut programs = [Program::new(one, global, local), Program::new(other, global, local)];
    let mut over = [false, false];
    for i in 0..limit {
        for k in 0..2 {
            if over[k] {
                continue;
            }
            let step = advance(&mut programs[k]);
            over[k] = !matches!(step.outcome, Some(Some(_)));
            if over[k] {
                reach!("over");
            } else {
                reach!("operation");
            }
            let fine = i < alone[k].len() && same(&alone[k][i], &step);
            check!(fine, "C33 programs do not depend on one another");
            if !fine {
                return;
            }
            observe(over[k] as u64);
        }
    }
}

harnesses! {
    fn h_progress_before("C33", Quick, ["operation", "over"],
        "all programs of 0 to 3 bytes against the same followed by any 2 bytes")
    {
        before::<3, 2>();
    }

    fn h_progress_before_more("C33", Thorough, ["operation", "over"],
        "all programs of 0 to 4 bytes against the same followed by any 2 bytes")
    {
        before::<4, 2>();
    }

    fn h_progress_before_tokens("C33", Quick, ["operation", "over"],
        "programs of 1 to 3 tokens, which are symbolic numbers, calculations, moves, lines, stems, and masks, followed by any 2 bytes, at the top or in a subroutine")
    {
        tokens(3);
    }

    fn h_progress_before_tokens_more("C33", Thorough, ["operation", "over"],
        "as h_progress_before_tokens with 1 to 4 tokens")
    {
        tokens(4);
    }

    fn h_progress_before_caller("C33", Both, ["operation", "over"],
        "subroutines of 0 to 2 arbitrary bytes, a return, and code of 2 arbitrary bytes after the call")
    {
        let b = bytes::<2>();
        let routine = vec![[&b[..choose(3)], &[11]].concat()];
        let after = bytes::<2>();
        let alone = trace(&[139, 140, 32, 10], &[], &routine, 10);
        let whole = trace(&[139, 140, 32, 10, after[0], after[1]], &[], &routine, 10);
        extends(&alone, &whole);
    }

    fn h_progress_alternate("C33", Both, ["operation", "over"],
        "pairs of programs of 2 tokens and an arbitrary byte over the same subroutines, one request each in turn")
    {
        let mut codes = [vec![], vec![]];
        for code in codes.iter_mut() {
            for _ in 0..2 {
                token(code);
            }
            code.push(22);
        }
        let routines = vec![vec![140, 22, 11]];
        alternate(&codes[0], &codes[1], &routines, &routines, 6);
    }

    fn h_progress_alternate_nested("C33", Both, ["operation", "over"],
        "pairs of programs that call the same subroutine of 3 arbitrary bytes, which may call others, with different operands, one request each in turn")
    {
        let b = bytes::<3>();
        assume((b[0] >= 32) | (b[0] == 22) | (b[0] == 1) | (b[0] == 18));
        let routines = vec![vec![b[0], 22, b[1], b[2], 11], vec![141, 4, 11]];
        let (one, other) = (byte(), byte());
        assume((one >= 32) & (one < 247) & (other >= 32) & (other < 247));
        alternate(&[one, 32, 10, 33, 10], &[other, 32, 29, 22, 140, 5], &routines, &routines, 6);
    }

    fn h_progress_tables("C33", Both, ["operation"],
        "pairs of programs over other subroutines, 1, 2, 984, 1239, 1240, 1496, 33899, or 33900 of them, one request each in turn or one program after the other")
    {
        let sizes = [1, 2, 984, 1239, 1240, 1496, 33899, 33900];
        let (one, other) = (sizes[choose(sizes.len())], sizes[choose(sizes.len())]);
        let make = |count: usize, value: u8| {
            let mut routines = vec![vec![]; count];
            routines[count - 1] = vec![value, 22, 11];
            routines
        };
        let values = [between(32, 246), between(32, 246)];
        let tables = [make(one, values[0]), make(other, values[1])];
        let codes = [one, other].map(|count| {
            let position = count as i32 - 1 - if count < 1240 { 107 } else if count < 33900 { 1131 } else { 32768 };
            let mut code = vec![];
            for _ in 0..2 {
                number(&mut code, position);
                code.push(10);
            }
            code
        });
        let mut programs = [Program::new(&codes[0], &[], &tables[0]), Program::new(&codes[1], &[], &tables[1])];
        for k in [[0, 1, 0, 1], [0, 0, 1, 1]][choose(2)] {
            let fine = match programs[k].next() {
                Ok(Some((Operator::HMoveTo, operands))) => {
                    reach!("operation");
                    operands.len() == 1 && operands[0] == values[k] as f32 - 139.0
                }
                _ => false,
            };
            check!(fine, "C33 programs do not depend on one another");
        }
    }

    fn h_progress_again("C33", Both, ["operation", "over"],
        "all programs of 0 to 3 bytes executed anew after another program of 2 arbitrary bytes")
    {
        let (one, other) = (bytes::<3>(), bytes::<2>());
        let one = &one[..choose(4)];
        let routines = vec![vec![140, 22, 11], vec![11]];
        let first = trace(one, &routines, &routines, 10);
        trace(&other, &routines, &[], 10);
        let second = trace(one, &routines, &routines, 10);
        check!(first.len() == second.len(), "C33 programs do not depend on one another");
        for (one, other) in first.iter().zip(second.iter()) {
            if matches!(one.outcome, Some(Some(_))) {
                reach!("operation");
            } else {
                reach!("over");
            }
            check!(same(one, other), "C33 programs do not depend on one another");
            observe(other.width.map_or(0, |width| width.to_bits() as u64));
        }
    }
}
