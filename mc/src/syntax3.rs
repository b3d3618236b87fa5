//! Texts in which characters of several bytes lie at every offset.
use crate::report::*;
use crate::syntax::*;

/// Frames around characters of 2, 3 and 4 bytes after 0 to 3 of one byte, up to a length:
/// every offset is within a character in one of them. Well-formed and not, the mistake
/// before, within or after them.
pub fn wide(ctx: &Ctx, most: usize, aspects: u32) {
    let (s, e) = (std_set(), ext_set());
    let frames = [
        "$['#']", "$['#'", "$['#", "$['#']x", "$.#", "$.#.b", "$.# ", "$.#.", "$..#[", "$[?@.a=='#']", "$[?@.a=='#'&&]", "$[?@.a==\"#\"", "$[?'#'==@.a]", "$[?'#']", "$[?length('#')]", "$[?count('#')==1]", "$[?nope('#')]", "$[?match(@,'#')]",
        "#", "#$", " $['#']", "$['#','#']", "$['#',]", "$['#' 0]", "$['\\x#']", "$['#\\x']", "$['#\\ud800']", "$['\\ud83d#']", "$['#\\u00e9#'] ", "$[01,'#']", "$['#',01]", "$[?@.#]", "$[?@.#==1.]", "$[?@.#&&@.a||@.#]", "$[?#]", "$[?#(@)]", "$[#]", "$[1:#]", "$[?@['#']==$['#'].#]", "$[?fll('#')]", "$[?@.a==1e#]", "$[?!@.#]", "$[?(@.#]", "$['a'].#['b'].#",
        "$[?@.#==@.*]", "$[?@.*=='#']", "$[9007199254740992,'#']", "$['#',9007199254740992]", "$['#\u{1}']", "$['\u{1}#']",
    ];
    let mut sizes = vec![1, 5, 10, 16, 20, 30, 32, 40, 50, 60, 64, 80, 100, 120, 128, 150, 200, 250, 256, 300, 400, 500, 512, 800, 1000, 1024, 2000, 4096, 5000];
    sizes.retain(|n| *n <= most);
    let mut work = vec![];
    for f in frames {
        for n in &sizes {
            work.push((f, *n));
        }
    }
    ctx.par(&work, |(f, n)| {
        for c in ['\u{e9}', '\u{20ac}', '\u{1F600}'] {
            for k in 0..4 {
                let body: String = "x".repeat(k) + &c.to_string().repeat((n / c.len_utf8()).max(1));
                let t = f.replace('#', &body);
                let set = if f.contains("fll") { e } else { s };
                ctx.trans(1);
                one_fresh(ctx, &t, set, aspects);
            }
        }
    });
    ctx.sample(|| frames[9].replace('#', "x\u{20ac}\u{20ac}\u{20ac}"));
}
