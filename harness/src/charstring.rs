//! Programs: one event per request for an operation.

use crate::json::{o, s, J};
use postscript::type2::Program;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The sign bit, exponent, and fraction as the specification sees them.
pub fn float(value: f32) -> J {
    let triple = if value.is_nan() {
        [0, 255, 1]
    } else if value == 0.0 {
        [0, 0, 0]
    } else {
        let bits = value.to_bits();
        [bits >> 31, (bits >> 23) & 0xff, bits & 0x7fffff]
    };
    J::A(triple.iter().map(|value| J::I(*value as i64)).collect())
}

pub fn set(case: &J) -> Vec<Vec<u8>> {
    let count = case.at("n").int() as usize;
    let mut routines = vec![vec![0x0b]; count];
    for pair in case.at("s").arr() {
        let i = pair.arr()[0].int() as usize;
        if i < count {
            routines[i] = pair.arr()[1].bytes();
        }
    }
    routines
}

/// The outcome of the next request to a program, and whether the program may be asked again.
pub fn request(program: &mut Program) -> (J, bool) {
    let result = catch_unwind(AssertUnwindSafe(|| {
        let result = program.next();
        (result, program.width())
    }));
    let (result, width) = match result {
        Err(_) => return (o().put("k", s("panic")), false),
        Ok(pair) => pair,
    };
    let width = J::A(width.iter().map(|width| float(*width)).collect());
    let event = match result {
        Ok(Some((operator, operands))) => o()
            .put("k", s("op"))
            .put("op", s(&format!("{operator:?}")))
            .put("a", J::A(operands.iter().map(|value| float(*value)).collect()))
            .put("w", width),
        Ok(None) => o().put("k", s("end")).put("w", width),
        Err(_) => o().put("k", s("err")),
    };
    (event, true)
}

pub fn run(case: &J) -> J {
    let code = case.at("code").bytes();
    let local = set(case.at("l"));
    let global = set(case.at("g"));
    let limit = case.get("limit").map(|limit| limit.int()).unwrap_or(4000);
    let mut events = vec![];
    let mut program = Program::new(&code, &global, &local);
    let mut extra = 0;
    for _ in 0..limit {
        let (event, alive) = request(&mut program);
        if event.at("k").str() != "op" {
            extra += 1;
        }
        events.push(event);
        if extra == 3 || !alive {
            break;
        }
    }
    J::A(events)
}
