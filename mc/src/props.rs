//! Which suites decide which property.
use crate::evals::*;
use crate::evals2::*;
use crate::evals3::*;
use crate::evalx::*;
use crate::report::*;
use crate::syntax::*;
use crate::syntax2::*;

const PARSE_ASSUMPTIONS: &[&str] = &[
    "the reference grammar, typing rules and decoder in /verif/jpmodel state RFC 9535 correctly",
    "query texts outside the enumerated families (see bounds) behave like those inside",
];

const EVAL_ASSUMPTIONS: &[&str] = &[
    "the reference evaluator in /verif/jpmodel states RFC 9535 correctly, with object members in the order in which the JSON value iterates them",
    "queries and documents outside the enumerated families (see bounds) behave like those inside",
];

/// Every family of query texts, with the given aspects checked on each.
fn texts(ctx: &Ctx, asp: u32) {
    let (s, e) = (std_set(), ext_set());
    let t = ctx.thorough;
    let d = t as usize;
    ctx.suite("segments", "all strings of segment tokens to depth 5 (thorough 6) from $, pruned where no extension is well-formed, each also closed", || explore(ctx, &p_seg(5 + d), s, asp));
    ctx.suite("filters", "all strings of filter tokens to depth 4 (5) from $[?", || explore(ctx, &p_filter(4 + d), s, asp));
    ctx.suite("logic", "all strings of logical tokens to depth 7 (8) from $[?", || explore(ctx, &p_logic(7 + d), s, asp));
    ctx.suite("functions", "all strings of call tokens to depth 4 (5) from $[?, 23 registered functions", || explore(ctx, &p_func(4 + d), e, asp));
    ctx.suite("numbers", "all strings of number characters to depth 6 (7) after $[?@==", || explore(ctx, &p_num(6 + d), s, asp));
    ctx.suite("integers", "all strings of integer and slice tokens to depth 5 (6) after $[", || explore(ctx, &p_int(5 + d), s, asp));
    ctx.suite("singular selectors", "all strings of singular-selector tokens to depth 5 (6) after $[", || explore_sing(ctx, &p_sing(5 + d), s, asp));
    ctx.suite("implicit root", "all strings of tokens to depth 5 (6) with and without $", || explore_sing(ctx, &p_implicit(5 + d), s, asp));
    ctx.suite("edits", "every single-token edit of 90 corpus queries with a vocabulary of 61 tokens", || edits(ctx, CORPUS, s, asp));
    ctx.suite("edits of calls", "every single-token edit of 27 corpus queries with registered functions", || edits(ctx, CORPUS_EXT, e, asp));
    ctx.suite("blanks", "15 blanks and non-blanks at every token boundary (thorough: and every pair) of the corpus", || {
        blanks(ctx, CORPUS, s, asp, t);
        blanks(ctx, CORPUS_EXT, e, asp, t);
    });
    ctx.suite("names", "code points 0..0x250 and boundary ones in 34 positions, all ASCII pairs in 4 (thorough: all code points in names)", || names(ctx, t, asp));
    ctx.suite("trees", "logical expression trees with up to 3 (4) operands, negations, redundant and missing parentheses", || trees(ctx, 3 + d, asp));
    ctx.suite("sized queries", "all queries of up to 3 (thorough 4) selectors, literals, identifiers, calls, negations and parentheses over a vocabulary of everything; of 4 (5) over filters; of 4 (5) over function calls; of 3 (4) over segments; of 5 (6) over calls of registered functions", || {
        use crate::gen::*;
        sized(ctx, &FULL, 3 + d, s, asp);
        sized(ctx, &FILTERS, 4 + d, s, asp);
        sized(ctx, &FUNCS, 4 + d, s, asp);
        sized(ctx, &SEGS, 3 + d, s, asp);
        sized(ctx, &LOGIC_CALLS, 5 + d, e, asp);
        sized(ctx, &CALLS, 5 + d, e, asp);
    });
    if asp & (ACCEPT | ACCEPT_WF | ERRKIND | TOTAL | SPANS) != 0 {
        ctx.suite("sized untyped queries", "all queries of up to 3 (thorough 4) elements with calls and comparisons that need not be well-typed, and of 4 (5) with two functions", || {
            use crate::gen::*;
            sized(ctx, &UNTYPED, 3 + d, e, asp);
            sized(ctx, &UNTYPED_STD, 4, s, asp);
        });
    }
    ctx.suite("logic in places", "all logical expressions of up to 4 (thorough 5) operands, negations and parentheses in 16 places: filters, arguments, nested filters, within parentheses", || logic_places(ctx, 4 + d, asp));
    ctx.suite("tokens in places", "all strings of segment, filter, call, number and integer tokens to depth 2 or 3 (thorough 3 or 4) in 54 places deeper within queries", || deep_places(ctx, d, asp));
    ctx.suite("long queries", "62 families of nested and of long queries at sizes 1 to 40, and around 64, 128, 256 and 512 (thorough: all sizes to 300)", || {
        let mut sizes: Vec<usize> = (1..=if t { 300 } else { 40 }).collect();
        sizes.extend([63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513]);
        sizes.dedup();
        long(ctx, &sizes, asp);
    });
    ctx.suite("one odd segment", "1 to 257 (thorough 1000) equal segments, at and around the powers of two, of 7 kinds and one of 17 others, at either end, next to it, and in the middle; as queries, existence tests, comparands and arguments", || odd_ones(ctx, if t { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] } else { &[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 256, 257] }, asp));
    ctx.suite("huge texts", "24 texts with a part of 65534, 65536 and 70001 characters, 13 of 20000 and 33000 segments or selectors", || huge(ctx, asp));
    ctx.suite("wide characters", "50 texts, well-formed and not, with characters of 2, 3 and 4 bytes after 0 to 3 of one byte, of 29 lengths to 5000 bytes", || crate::syntax3::wide(ctx, 5000, asp));
    ctx.suite("arities", "functions of all lists of 3 and 4 parameter types, and 127 lists of 5 to 7: too few and too many arguments, each argument in 10 forms, two wrong ones", || arities(ctx, asp));
    ctx.suite("strings", "all string literals of at most 2 (3) of 38 pieces, both quotes, four contexts", || strings(ctx, 2 + d, asp));
    ctx.suite("repeated pieces", "each of 38 pieces of a string literal 3 to 9 times, and every two of them in turn and one after the other 3, 4, 5 and 9 times, both quotes, two contexts", || repeated_pieces(ctx, &[3, 4, 5, 9], asp));
    ctx.suite("number forms", "sign x 15 integer parts x 9 fractions x 19 exponents, in three contexts", || numbers(ctx, asp));
    ctx.suite("slice forms", "all slices over 7 values per bound, five layouts and contexts", || slice_forms(ctx, asp));
}

pub fn run(p: &str, thorough: bool) -> i32 {
    let ctx = Ctx::new(p, thorough);
    let c = &ctx;
    let t = thorough;
    match p {
        "C01" => texts(c, ACCEPT),
        "C02" => texts(c, TREE),
        "C03" => {
            let a = ACCEPT | TREE;
            c.suite("strings", "all string literals of at most 2 (thorough 3) of 38 pieces, both quotes, four contexts", || strings(c, 2 + t as usize, a));
            c.suite("repeated pieces", "each of 38 pieces 3 to 65 times, and every two of them in turn and one after the other 3, 4, 5, 8, 16, 33 and 65 times, both quotes, two contexts", || repeated_pieces(c, &[3, 4, 5, 8, 16, 33, 65], a));
            c.suite("huge texts", "24 texts with a part of 65534, 65536 and 70001 characters, 13 of 20000 and 33000 segments or selectors", || huge(c, a));
            c.suite("code points", "all \\uXXXX in both cases, surrogate pairs (thorough: all 2^20), 14 wrong successors of every high surrogate, raw code points (thorough: all)", || code_points(c, t, a));
        }
        "C04" => {
            c.suite("typed calls", "23 signatures x 45 argument forms in every position x 10 contexts; the standard functions and near misses; re-registered names", || typed_calls(c, t, ACCEPT_WF));
            c.suite("arities", "functions of all lists of 3 and 4 parameter types, and 127 lists of 5 to 7: too few and too many arguments, each argument in 10 forms, two wrong ones", || arities(c, ACCEPT_WF));
            c.suite("functions", "all strings of call tokens to depth 4 (thorough 5)", || explore(c, &p_func(4 + t as usize), ext_set(), ACCEPT_WF));
            c.suite("filters", "all strings of filter tokens to depth 4 (thorough 5)", || explore(c, &p_filter(4 + t as usize), std_set(), ACCEPT_WF));
            c.suite("one odd segment", "1 to 257 (thorough 1000) equal segments, at and around the powers of two, of 7 kinds and one of 17 others, at either end, next to it, and in the middle; as queries, existence tests, comparands and arguments", || odd_ones(c, if t { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 256, 257] }, ACCEPT_WF));
            c.suite("edits", "every single-token edit of the corpora", || {
                edits(c, CORPUS, std_set(), ACCEPT_WF);
                edits(c, CORPUS_EXT, ext_set(), ACCEPT_WF);
            });
        }
        "C05" => {
            texts(c, ROUND);
            c.suite("code points", "all \\uXXXX escapes and surrogate pairs in names and literals, displayed and read back", || code_points(c, t, ROUND));
        }
        "C06" => {
            c06(c, NODES);
            crate::evals4::among(c, NODES, true, false, false);
            sizes_child(c, NODES);
        }
        "C07" => {
            c07(c, NODES);
            sizes_slices(c, NODES);
        }
        "C08" => {
            c08(c, NODES);
            crate::evals4::among(c, NODES, false, true, false);
            sizes_desc(c, NODES);
        }
        "C09" => {
            c09(c, NODES);
            crate::evals4::among(c, NODES, false, false, true);
            sizes_logic(c, NODES);
        }
        "C10" => {
            c10(c, NODES);
            sizes_numbers(c, NODES);
            sizes_compared(c, NODES);
            crate::evals4::deep_compared(c, NODES);
        }
        "C11" => {
            c11(c);
            crate::evals4::among(c, PATH, true, true, true);
            sizes_names(c);
        }
        "C12" => {
            c12(c);
            crate::evals4::among(c, AGREE | LAZY, true, true, true);
            sizes_agree(c);
        }
        "C13" => {
            c13(c, NODES);
            sizes_lengths(c, NODES);
            crate::evals4::deep_functions(c, NODES);
        }
        "C14" => {
            c14(c);
            sizes_patterns(c);
            crate::evals4::structured(c, NODES);
            crate::evals4::classes(c, NODES);
            sizes_subjects(c);
        }
        "C15" => {
            c15(c);
            crate::evals4::changed(c);
        }
        "C16" => crate::threads::c16(c),
        "C18" => {
            c18(c);
            crate::evals4::total(c, TOTAL_EVAL);
        }
        "C23" => {
            crate::custom::c23(c);
            crate::stateful::stateful(c);
        }
        "C24" => crate::lists::c24(c),
        "C20" => c20(c),
        "C17" => {
            texts(c, TOTAL);
            c.suite("nesting", "33 families of nested and long queries, well-formed and not, at every size to 24 (thorough 60) and at larger ones", || nesting(c, if t { 60 } else { 24 }, if t { &[100, 200, 400, 1000] } else { &[50, 100, 300] }, TOTAL));
            c.suite("usual stack", "the same families at five sizes to 60, on threads with the default 2 MiB stack", || small_stack(c, &[10, 20, 30, 45, 60], TOTAL));
            c.suite("repeated parts", "all units of one or two of 35 tokens (thorough: three), and 27 longer ones, repeated 40 times in 6 frames around 5 cores, closed, unclosed, closed once less and once more", || pumped(c, t, 40, TOTAL));
            c.suite("code points", "every escape and surrogate combination", || code_points(c, t, TOTAL));
        }
        "C19" => texts(c, SPANS),
        "C21" => {
            c.suite("integer range", "all integers around 0, powers of two, powers of ten and 2^53-1, in 24 positions", || int_range(c, ACCEPT | TREE));
            c.suite("integers", "all strings of integer and slice tokens to depth 6 (thorough 7)", || explore(c, &p_int(6 + t as usize), std_set(), ACCEPT_WF));
            c.suite("configured ranges", "97 ranges set in each parser x integers around their ends and the limits of integer types, in 25 positions", || configured_range(c, ACCEPT | TREE));
        }
        "C22" => {
            texts(c, ERRKIND);
            c.suite("typed calls", "every signature with every argument form in every context", || typed_calls(c, t, ERRKIND));
            c.suite("integer range", "integers around the limits in 24 positions", || int_range(c, ERRKIND));
        }
        "C25" => {
            texts(c, CLASSIFY);
            crate::evals3::singular_results(c);
        }
        "C27" => crate::built::c27(c),
        "C26" => {
            let (s, e, d) = (std_set(), std_set(), t as usize);
            c.suite("segments", "all strings of segment tokens to depth 5 (thorough 6) from $", || explore(c, &p_seg(5 + d), s, ENTRY));
            c.suite("filters", "all strings of filter tokens to depth 4 (5) from $[?", || explore(c, &p_filter(4 + d), s, ENTRY));
            c.suite("functions", "all strings of call tokens to depth 3 (4), of which only the standard functions are registered", || explore(c, &p_func(3 + d), e, ENTRY));
            c.suite("numbers", "all strings of number characters to depth 5 (6) after $[?@==", || explore(c, &p_num(5 + d), s, ENTRY));
            c.suite("integers", "all strings of integer and slice tokens to depth 4 (5) after $[", || explore(c, &p_int(4 + d), s, ENTRY));
            c.suite("implicit root", "all strings of tokens to depth 4 (5) with and without $", || explore_sing(c, &p_implicit(4 + d), s, ENTRY));
            c.suite("edits", "every single-token edit of 90 corpus queries with a vocabulary of 61 tokens", || edits(c, CORPUS, s, ENTRY));
            c.suite("blanks", "15 blanks and non-blanks at every token boundary of the corpus, before and after each query", || blanks(c, CORPUS, s, ENTRY, t));
            c.suite("sized queries", "all queries of up to 3 (thorough 4) elements over a vocabulary of everything, and of calls that need not be well-typed", || {
                sized(c, &crate::gen::FULL, 3 + d, s, ENTRY);
                sized(c, &crate::gen::UNTYPED_STD, 3 + d, s, ENTRY);
            });
            c.suite("names", "code points 0..0x250 and boundary ones in 34 positions, all ASCII pairs in 4", || names(c, t, ENTRY));
            c.suite("strings", "all string literals of at most 2 of 38 pieces, both quotes, four contexts", || strings(c, 2, ENTRY));
            c.suite("long queries", "62 families of nested and of long queries at sizes 1 to 40, and around 64, 128 and 256", || {
                let mut sizes: Vec<usize> = (1..=40).collect();
                sizes.extend([63, 64, 65, 127, 128, 129, 255, 256, 257]);
                long(c, &sizes, ENTRY)
            });
            c.suite("integer range", "integers around the limits in 24 positions", || int_range(c, ENTRY));
            c.suite("huge texts", "24 texts with a part of 65534, 65536 and 70001 characters, 13 of 20000 and 33000 segments or selectors", || huge(c, ENTRY));
        }
        _ => {
            eprintln!("no such property: {p}");
            return 2;
        }
    }
    ctx.finish(match p {
        "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C18" | "C20" | "C23" | "C24" | "C27" => EVAL_ASSUMPTIONS,
        _ => PARSE_ASSUMPTIONS,
    })
}

/// Run the case of a replay file again, on the current tree.
pub fn replay(file: &str) -> i32 {
    let v: serde_json::Value = match std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let d = &v["data"];
    let mut bad = vec![];
    match v["kind"].as_str() {
        Some("parse") => {
            let mut out = vec![];
            let set = set_named(d["funcs"].as_str().unwrap_or("std"));
            examine(d["text"].as_str().unwrap(), set, d["aspects"].as_u64().unwrap() as u32, None, &mut out);
            for f in out {
                bad.push(format!("{} {}: {}", f.who.name(), f.what, f.msg));
            }
        }
        Some("threads") => bad = crate::threads::replay_threads(d),
        Some("lists") => bad = crate::lists::replay_lists(d),
        Some("compare") => bad = crate::lists::replay_compare(d),
        Some("history") => bad = replay_history(d),
        Some("large") => bad = replay_large(d),
        Some("eval") => bad = replay_eval(d),
        // no case on its own: the suite that it came from, again
        _ => {
            let prop = v["property"].as_str().unwrap_or("");
            let tier = v["tier"].as_str().unwrap_or("quick");
            let r = std::process::Command::new(std::env::current_exe().unwrap()).args([prop, tier]).env("MC_ONLY", v["suite"].as_str().unwrap_or("")).env("MC_REPLAY", "1").status();
            return r.ok().and_then(|s| s.code()).unwrap_or(2);
        }
    }
    for b in &bad {
        println!("{b}");
    }
    if bad.is_empty() {
        println!("the case passes");
        0
    } else {
        1
    }
}
