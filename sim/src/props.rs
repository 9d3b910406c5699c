//! The table of simulations.
use crate::core::*;
use crate::rng::Rng;
use serde_json::Value;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// generate from the PRNG and run
    pub go: fn(&mut Rng, &mut Ctx) -> Res,
    pub gen: fn(&mut Rng) -> Value,
    pub valid: fn(&Value) -> bool,
    pub exec: fn(&Value, &mut Ctx) -> Res,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}
macro_rules! prop {
    ($id:expr, $m:ident, $quick:expr, $thorough:expr, $rule:expr, $real:expr, $stub:expr, $asm:expr) => {
        Prop {
            id: $id,
            quick: $quick,
            thorough: $thorough,
            go: |r, c| {
                let p = crate::$m::gen(r);
                debug_assert!(crate::$m::valid(&p));
                crate::$m::exec(&p, c)
            },
            gen: |r| serde_json::to_value(crate::$m::gen(r)).expect("plan to json"),
            valid: |v| {
                serde_json::from_value::<crate::$m::Plan>(v.clone())
                    .map_or(false, |p| crate::$m::valid(&p))
            },
            exec: |v, c| match serde_json::from_value::<crate::$m::Plan>(v.clone()) {
                Ok(p) => crate::$m::exec(&p, c),
                Err(e) => violation("harness", format!("bad plan: {e}")),
            },
            rule: $rule,
            real: $real,
            stub: $stub,
            assumptions: $asm,
        }
    };
}
const LIB: &str = "all of yaml-subset (parser, pest grammar, formatter, tree types) built from /repo";
const WORLD_STUB: &str =
    "disk, clock, clients and scheduler are simulated; the library itself has no stub";
pub fn all() -> Vec<Prop> {
    vec![
        prop!(
            "C01",
            c01,
            200_000,
            20_000_000,
            "each run: 1-2 generated documents in foreign layouts, 1-8 operations of 1-3 interleaved clients on a simulated disk with crashes, power loss, read errors, full disk and rewrites by another tool; non-trivial = a fault was planned or clients overlapped",
            LIB,
            WORLD_STUB,
            &["documents are drawn from the supported subset (see DESIGN.md, domain)"]
        ),
        prop!(
            "C02",
            c02,
            200_000,
            20_000_000,
            "each run: 1-2 generated documents, 1-8 operations of 1-3 clients, each up to 5 path edits between load and save, with crashes, power loss, read errors, full disk and foreign rewriting; every edit's result and count compared with the reference model; non-trivial = a fault was planned or clients overlapped",
            LIB,
            WORLD_STUB,
            &["documents are drawn from the supported subset (see DESIGN.md, domain)", "edits whose result could not be stored (duplicate or unwritable keys) are skipped"]
        ),
        prop!(
            "C03",
            c03,
            200_000,
            15_000_000,
            "each run: 1-2 generated documents, 1-8 operations of 1-3 clients that change or prettify between load and save, with crashes, power loss, read errors, full disk and foreign rewriting; every prettifying is judged by what readers get, and again after save and reload; non-trivial = a fault was planned or clients overlapped",
            LIB,
            WORLD_STUB,
            &["documents are drawn from the supported subset (see DESIGN.md, domain)"]
        ),
        prop!(
            "C04",
            c04,
            600_000,
            20_000_000,
            "each run: a stored document is torn, bit-flipped, spliced, has sectors lost or repeated, then read; non-trivial = the damaged text differs from what was stored",
            LIB,
            WORLD_STUB,
            &["nesting of at most 60 levels; recursion depth beyond that is not explored"]
        ),
        prop!(
            "C05",
            c05,
            200_000,
            12_000_000,
            "each run: a generated type and values of it, written, prettified, changed around and rewritten by 1-3 clients and another tool on a crashing disk; every load reads every typed value; non-trivial = a fault was planned or clients overlapped",
            LIB,
            WORLD_STUB,
            &["types as listed in sim/src/typed.rs: no NaN, no option of something that may be null itself, map keys within the key syntax of the subset"]
        ),
        prop!(
            "C06",
            c06,
            200_000,
            15_000_000,
            "each run: a generated document on a crashing disk and generated typed values; the simulated caller fails by error or panic at chosen callbacks of its reads and writes, up to five times with retries, partly handled by an enclosing callback; non-trivial = a failure was injected, a fault planned or clients overlapped",
            LIB,
            "disk, clock, clients and scheduler are simulated, the callers' serde code is the simulator's; the library itself has no stub",
            &["a failure inside a map key is not handled by the enclosing callback"]
        ),
        prop!(
            "C07",
            c07,
            200_000,
            15_000_000,
            "each run: a generated document with anchors and aliases on a crashing disk, changed between reads; consumers pull it by scripts (read by which type, ignore, leave unread, stop) and compare every value with the reference document; non-trivial = a fault was planned or clients overlapped",
            LIB,
            "disk, clock, clients and scheduler are simulated, the consumers' serde code is the simulator's; the library itself has no stub",
            &["a consumer reads at most 1500 values and leaves the rest unread"]
        ),
        prop!(
            "C08",
            c08,
            200_000,
            15_000_000,
            "each run: 1-2 generated documents on a crashing disk, edited by closures (for_hash, edit_hash_structure, insert by call), mapped and visited by 1-3 clients whose code panics at a chosen call before or after its change; calls, order, results and the state left behind are compared with the reference model, then the history goes on; non-trivial = a failure was injected, a fault planned or clients overlapped",
            LIB,
            "disk, clock, clients and scheduler are simulated, the callers' closures are the simulator's; the library itself has no stub",
            &["documents are drawn from the supported subset (see DESIGN.md, domain)", "edits whose result could not be stored (duplicate or unwritable keys) are skipped"]
        ),
        prop!(
            "C09",
            c09,
            20_000,
            2_000_000,
            "each run: 2-4 tasks of 1-5 calls (parse, read, edit, closures, map, visit, prettify, save, paths, typed values) on related texts, on threads switched at basic blocks by an explicit schedule or by turns on one thread, callbacks that fail, panic or use the library themselves; every call is compared with the same call in a process in which nothing ever ran; non-trivial = threads were switched inside calls, or tasks took turns, or a callback failed or nested",
            LIB,
            "scheduler, lock waiting and hash seeds are simulated, the callers' code is the simulator's; the library itself has no stub",
            &["switches happen at basic blocks of the library, of pest and of the callers; machine-level reordering of memory accesses is not explored", "a document that the reference model cannot express is not judged"]
        ),
        prop!(
            "C10",
            c10,
            6_000,
            600_000,
            "each run: a generated document that grows over 1-8 operations of 1-3 clients on a crashing disk (nesting up to 60 levels, hundreds of fields, items, lines and comments, chains of aliases), with edits, prettifying and foreign rewriting; every read, save, prettifying, edit and (de)serialization is metered in basic blocks against a bound in size times depth; non-trivial = a fault was planned or clients overlapped",
            LIB,
            WORLD_STUB,
            &["documents of at most about 60 KB and 60 levels", "steps are basic blocks of the library, of pest and of the consumer; the standard library's own loops are not counted"]
        ),
    ]
}
pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
