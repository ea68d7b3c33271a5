//! C17: diagnostics are filtered and re-graded as configured; configuration files mean what they spell.
use engine::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// Every documented kind (CONFIGURING.md), and `-` for diagnostics without one.
/// The first matching fragment of the message decides; prefix/suffix parts are separated by `*`.
const TABLE: &[(&str, &str)] = &[
    (", but it cannot be disabled", "disabled_directive"),
    ("sets SpacemanDMM_* twice", "sets_directive_twice"),
    ("unknown linter setting", "unknown_linter_setting"),
    ("cannot be set on global procs", "incompatible_directive"),
    ("set statement not at the top of the proc", "set_has_no_effect"),
    ("list.Find() with no arguments", "empty_find"),
    ("set * must be 0/1/TRUE/FALSE", "invalid_set_value"),
    ("set * must have a string value", "invalid_set_value"),
    ("set invisibility must be 0-100", "invalid_set_value"),
    ("an override of * is missing keyword arg", "override_missing_keyword_arg"),
    ("proc overrides private parent", "private_proc"),
    ("attempting to call private proc", "private_proc"),
    ("attempting to call protected proc", "protected_proc"),
    ("proc overrides parent, prohibited", "must_not_override"),
    ("proc calls parent, prohibited", "must_not_call_parent"),
    ("proc never calls parent, required", "must_call_parent"),
    ("redefining proc", "redefined_proc"),
    ("overrides final var", "final_var"),
    ("overrides private var", "private_var"),
    ("var/SpacemanDMM_private has no effect here", "private_var"),
    ("is declared as private", "private_var"),
    ("var/SpacemanDMM_protected has no effect here", "protected_var"),
    ("is declared as protected", "protected_var"),
    ("sets SpacemanDMM_should_not_sleep but calls blocking", "must_not_sleep"),
    ("sets SpacemanDMM_should_not_sleep but calls", "must_not_sleep"),
    ("sets SpacemanDMM_should_be_pure but", "must_be_pure"),
    ("does impure operations", "must_be_pure"),
    ("invalid value for set", "invalid_lint_directive_value"),
    ("possible unreachable code", "unreachable_code"),
    ("unreachable", "unreachable_code"),
    ("loop condition is always", "loop_condition_determinate"),
    ("if condition is always", "if_condition_determinate"),
    ("control flow condition is", "control_condition_static"),
    ("ambiguous * on left side of an `in`", "ambiguous_in_lhs"),
    ("Ambiguous `!` on left side of bitwise", "ambiguous_not_bitwise"),
    ("proc has no parent", "proc_has_no_parent"),
    ("no type hint available on implicit new()", "no_typehint_implicit_new"),
    ("field access requires static type", "field_access_static_type"),
    ("proc call requires static type", "proc_call_static_type"),
    ("which does not overload", "no_operator_overload"),
    ("invalid list access on", "improper_index"),
    ("precision loss of integer constant", "integer_precision_loss"),
    ("'var/' is unnecessary here", "var_in_proc_parameter"),
    ("'static/' has no effect here", "static_in_proc_parameter"),
    ("Extraneous ';' in proc parameter", "semicolon_in_proc_parameter"),
    ("'as' clause should precede 'in'", "in_precedes_as"),
    ("var/tmp has no effect here", "tmp_no_effect"),
    ("var/final has no effect here", "final_no_effect"),
    ("'as' clause has no effect on local variables", "as_local_var"),
    ("duplicate #include", "duplicate_include"),
    ("macro redefined", "macro_redefined"),
    ("macro undefined while not defined", "macro_undefined_no_definition"),
    ("override of * precedes definition", "override_precedes_definition"),
];

/// `{}` is replaced by a number of its own; the second part is the kind that has to show up
/// (empty for diagnostics without a kind, where only their number counts).
const SNIPPETS: &[(&str, &str)] = &[
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_should_not_override = 0\n", "disabled_directive"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_should_be_pure = 1\n\tset SpacemanDMM_should_be_pure = 1\n", "sets_directive_twice"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_nonsense = 1\n", "unknown_linter_setting"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_should_be_pure = 7\n", "invalid_lint_directive_value"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_should_be_pure = \"yes\"\n", "invalid_lint_directive_value"),
    ("/proc/f{}()\n\tset SpacemanDMM_private_proc = 1\n", "incompatible_directive"),
    ("/obj/t{}/proc/f()\n\tworld.time\n\tset SpacemanDMM_should_be_pure = 1\n", "set_has_no_effect"),
    ("/proc/f{}()\n\tvar/list/L = list()\n\tL.Find()\n", "empty_find"),
    ("/proc/f{}()\n\tset background = 3\n", "invalid_set_value"),
    ("/obj/t{}/verb/f()\n\tset name = 3\n", "invalid_set_value"),
    ("/obj/t{}/verb/f()\n\tset invisibility = 300\n", "invalid_set_value"),
    ("/obj/t{}/proc/f(a)\n/obj/t{}/b/f(c)\n\t..()\n/proc/f{}()\n\tvar/obj/t{}/o\n\to.f(a = 1)\n", "override_missing_keyword_arg"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_private_proc = 1\n/obj/t{}/b/f()\n\t..()\n", "private_proc"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_private_proc = 1\n/proc/g{}()\n\tvar/obj/t{}/o\n\to.f()\n", "private_proc"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_protected_proc = 1\n/proc/g{}()\n\tvar/obj/t{}/o\n\to.f()\n", "protected_proc"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_should_not_override = 1\n/obj/t{}/b/f()\n\t..()\n", "must_not_override"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_should_not_call_parent = 1\n/obj/t{}/b/f()\n\t..()\n", "must_not_call_parent"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_should_call_parent = 1\n/obj/t{}/b/f()\n\treturn\n", "must_call_parent"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_can_be_redefined = 0\n/obj/t{}/f()\n\treturn\n/obj/t{}/f()\n\treturn\n", "redefined_proc"),
    ("/obj/t{}/var/SpacemanDMM_final/v = 1\n/obj/t{}/b/v = 2\n", "final_var"),
    ("/obj/t{}/var/SpacemanDMM_private/v = 1\n/obj/t{}/b/v = 2\n", "private_var"),
    ("/obj/t{}/var/SpacemanDMM_private/v = 1\n/proc/g{}()\n\tvar/obj/t{}/o\n\to.v = 1\n", "private_var"),
    ("/obj/t{}/var/SpacemanDMM_protected/v = 1\n/proc/g{}()\n\tvar/obj/t{}/o\n\to.v = 1\n", "protected_var"),
    ("/proc/f{}()\n\tvar/SpacemanDMM_private/x = 1\n", "private_var"),
    ("/proc/f{}()\n\tvar/SpacemanDMM_protected/x = 1\n", "protected_var"),
    ("/proc/f{}()\n\tset SpacemanDMM_should_be_pure = 1\n\tworld << 1\n", "must_be_pure"),
    ("/var/y{}\n/proc/f{}()\n\tset SpacemanDMM_should_be_pure = 1\n\tg{}()\n/proc/g{}()\n\ty{} = 1\n", "must_be_pure"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_should_not_sleep = 1\n\tsleep(1)\n", "must_not_sleep"),
    ("/obj/t{}/proc/f()\n\tset SpacemanDMM_should_not_sleep = 1\n\tg()\n/obj/t{}/proc/g()\n\tsleep(1)\n", "must_not_sleep"),
    ("/proc/f{}()\n\treturn 1\n\tworld.time\n", "unreachable_code"),
    ("/proc/f{}()\n\tvar/x\n\tif(x)\n\t\treturn 1\n\telse\n\t\treturn 2\n\treturn 3\n", "unreachable_code"),
    ("/proc/f{}()\n\tfor(var/i = 0; 1; i++)\n\t\treturn\n", "loop_condition_determinate"),
    ("/proc/f{}()\n\tfor(var/i = 0; 0; i++)\n\t\tworld.time\n", "loop_condition_determinate"),
    ("/proc/f{}()\n\tif(1)\n\t\treturn\n", "if_condition_determinate"),
    ("/proc/f{}()\n\tif(\"x\")\n\t\treturn\n", "control_condition_static"),
    ("/proc/f{}(a, list/b)\n\treturn !a in b\n", "ambiguous_in_lhs"),
    ("/proc/f{}(a, list/b)\n\treturn a && a in b\n", "ambiguous_in_lhs"),
    ("/proc/f{}(a, b)\n\treturn !a & b\n", "ambiguous_not_bitwise"),
    ("/proc/f{}()\n\treturn ..()\n", "proc_has_no_parent"),
    ("/proc/f{}()\n\tvar/x = new()\n\treturn x\n", "no_typehint_implicit_new"),
    ("/proc/f{}(x)\n\treturn x.y\n", "field_access_static_type"),
    ("/proc/f{}(x)\n\tx.y()\n", "proc_call_static_type"),
    ("/proc/f{}(mob/m)\n\tm++\n", "no_operator_overload"),
    ("/proc/f{}(mob/m)\n\treturn m + 1\n", ""),
    ("/proc/f{}(mob/m)\n\treturn m[1]\n", "improper_index"),
    ("/var/v{} = 2147483649\n", "integer_precision_loss"),
    ("/proc/f{}(var/x)\n", "var_in_proc_parameter"),
    ("/proc/f{}(static/x)\n", "static_in_proc_parameter"),
    ("/proc/f{}(x;)\n", "semicolon_in_proc_parameter"),
    ("/proc/f{}()\n\tvar/x = input(\"x\") in list(1) as num\n\treturn x\n", "in_precedes_as"),
    ("/proc/f{}()\n\tvar/tmp/x = 1\n\treturn x\n", "tmp_no_effect"),
    ("/proc/f{}()\n\tvar/SpacemanDMM_final/x = 1\n\treturn x\n", "final_no_effect"),
    ("/proc/f{}()\n\tvar/x = 1 as num\n\treturn x\n", "as_local_var"),
    ("#include \"twice.dm\"\n#include \"twice.dm\"\n", "duplicate_include"),
    ("#define M{} 1\n#define M{} 2\n", "macro_redefined"),
    ("#undef N{}\n", "macro_undefined_no_definition"),
    ("/obj/t{}/f()\n\treturn\n/obj/t{}/proc/f()\n\treturn\n", "override_precedes_definition"),
    ("#warn careful {}\n", ""),
    ("#error wrong {}\n", ""),
    ("/obj/t{}\n\tunknown{} = 1\n", ""),
    ("/proc/f{}()\n\treturn nothing{}\n", ""),
    ("/proc/f{}()\n\tnothing{}()\n", ""),
    ("/proc/f{}()\n\tset noise = 1\n", ""),
    ("/proc/f{}(a)\n/proc/g{}()\n\tf{}(b = 1)\n", ""),
    ("/obj/t{}/proc\n", ""),
    ("/proc/f{}()\n\treturn 1\n", "none"),
    ("/obj/t{}/verb/y()\n", "none"),
];

const DOCUMENTED: &[&str] = &[
    "disabled_directive", "sets_directive_twice", "invalid_lint_directive_value", "invalid_set_value", "unknown_linter_setting",
    "override_missing_keyword_arg", "must_not_override", "must_call_parent", "must_not_call_parent", "final_var", "private_proc",
    "protected_proc", "private_var", "protected_var", "must_be_pure", "must_not_sleep", "redefined_proc", "ambiguous_in_lhs",
    "ambiguous_not_bitwise", "no_typehint_implicit_new", "field_access_static_type", "proc_call_static_type", "proc_has_no_parent",
    "no_operator_overload", "unreachable_code", "control_condition_static", "if_condition_determinate", "loop_condition_determinate",
    "improper_index", "integer_precision_loss", "var_in_proc_parameter", "static_in_proc_parameter", "semicolon_in_proc_parameter",
    "in_precedes_as", "tmp_no_effect", "final_no_effect", "as_local_var", "duplicate_include", "macro_redefined",
    "macro_undefined_no_definition", "override_precedes_definition",
];
/// Kinds the code knows but the documentation does not list.
const OTHERS: &[&str] = &["incompatible_directive", "set_has_no_effect", "empty_find"];

const LEVELS: &[(&str, i32)] = &[
    ("error", 1), ("errors", 1), ("warning", 2), ("warnings", 2), ("info", 3), ("infos", 3), ("hint", 4), ("hints", 4),
    ("disabled", 5), ("false", 5), ("off", 5), ("unset", 6),
];

fn kind_of(msg: &str) -> Option<&'static str> {
    for (frag, kind) in TABLE {
        let mut at = 0;
        let mut ok = true;
        for part in frag.split('*') {
            match msg[at..].find(part) {
                Some(i) => at += i + part.len(),
                None => {
                    ok = false;
                    break;
                },
            }
        }
        if ok {
            return Some(kind);
        }
    }
    None
}

fn rank(s: dm::Severity) -> i32 {
    match s {
        dm::Severity::Error => 1,
        dm::Severity::Warning => 2,
        dm::Severity::Info => 3,
        dm::Severity::Hint => 4,
    }
}

/// What a configuration says about diagnostics.
#[derive(Default, Debug, Clone)]
struct Says {
    threshold: Option<i32>,
    kinds: BTreeMap<String, i32>,
}

impl Says {
    fn random(g: &G, kinds: &[&str]) -> Says {
        let mut s = Says::default();
        if g.chance(2, 3) {
            s.threshold = Some(g.pick(LEVELS).1);
        }
        let n = g.len(0, kinds.len().min(24));
        for _ in 0..n {
            let level = if g.chance(1, 4) { 5 } else { g.pick(LEVELS).1 };
            s.kinds.insert(g.pick(kinds).to_string(), level);
        }
        s
    }
    fn apply(&self, kind: Option<&str>, severity: i32) -> Option<i32> {
        let severity = match kind.and_then(|k| self.kinds.get(k)) {
            Some(5) => return None,
            Some(6) | None => severity,
            Some(&n) => n,
        };
        match self.threshold {
            Some(5) => None,
            Some(6) | None => Some(severity),
            Some(t) if severity <= t => Some(severity),
            Some(_) => None,
        }
    }
    fn toml(&self, g: &G, extra: Vec<String>) -> String {
        let word = |n: i32| {
            let c: Vec<&str> = LEVELS.iter().filter(|l| l.1 == n).map(|l| l.0).collect();
            let w = *g.pick(&c);
            if g.chance(1, 4) { format!("'{}'", w) } else { format!("\"{}\"", w) }
        };
        let mut blocks = extra;
        if let Some(t) = self.threshold {
            let t = word(t);
            blocks.push(if g.chance(1, 6) { format!("[display]\n\"error_level\"   =   {}\n", t) } else { format!("[display]\nerror_level = {}\n", t) });
        }
        if !self.kinds.is_empty() {
            let mut lines: Vec<String> = self.kinds.iter().map(|(k, &v)| format!("{} = {}{}", if g.chance(1, 6) { format!("\"{}\"", k) } else { k.clone() }, word(v), if g.chance(1, 8) { " # so there" } else { "" })).collect();
            g.shuffle(&mut lines);
            blocks.push(format!("[diagnostics]\n{}\n", lines.join("\n")));
        }
        g.shuffle(&mut blocks);
        let mut out = String::new();
        for b in blocks {
            if g.chance(1, 6) {
                out.push_str("# a comment\n\n");
            }
            out.push_str(&b);
            if g.bool() {
                out.push('\n');
            }
        }
        if g.chance(1, 8) { out.replace('\n', "\r\n") } else { out }
    }
}

fn severity(n: i32) -> dm::Severity {
    match n {
        1 => dm::Severity::Error,
        2 => dm::Severity::Warning,
        3 => dm::Severity::Info,
        _ => dm::Severity::Hint,
    }
}

fn levels(g: &G) -> R {
    let mut kinds = DOCUMENTED.to_vec();
    kinds.extend(["made_up", "MADE_UP", "made"]);
    let says = Says::random(g, &kinds);
    let toml = says.toml(g, vec![]);
    g.note(&format!("--- SpacemanDMM.toml\n{}", toml));
    let dir = g.scratch();
    let path = dir.join("SpacemanDMM.toml");
    std::fs::write(&path, &toml).unwrap();
    let mut ctx = dm::Context::default();
    if g.bool() { ctx.force_config(&path) } else { ctx.autodetect_config(&dir.join("project.dme")) }
    ensure!(ctx.errors().is_empty(), "config:rejected", "a sound configuration was rejected: {:?}", ctx.errors()[0]);
    let mut want = vec![];
    let n = 1 + g.len(0, 12);
    let mut changed = 0;
    for i in 0..n {
        let sev = g.range(1, 4) as i32;
        let pool: Vec<&str> = says.kinds.keys().map(|k| *kinds.iter().find(|x| *x == k).unwrap()).collect();
        let kind = match g.below(4) {
            0 => None,
            1 | 2 if !pool.is_empty() => Some(*g.pick(&pool)),
            _ => Some(*g.pick(&kinds)),
        };
        let loc = dm::Location { file: Default::default(), line: i as u32 + 1, column: 3 };
        let mut e = dm::DMError::new(loc, format!("message {}", i));
        let explicit = sev != 1 || g.bool();
        if explicit && g.bool() {
            e = e.set_severity(severity(sev));
        }
        if let Some(k) = kind {
            e = e.with_errortype(kinds.iter().find(|x| **x == k).unwrap());
        }
        if explicit {
            e = e.set_severity(severity(sev));
        }
        g.note(&format!("message {} : {:?} {:?}", i, kind, severity(sev)));
        if g.bool() { e.register(&ctx) } else { ctx.register_error(e) }
        let s = says.apply(kind, sev);
        if s != Some(sev) {
            changed += 1;
        }
        if let Some(s) = s {
            want.push((format!("message {}", i), s));
        }
    }
    g.label_if(changed > 0, "filtered or re-graded");
    if changed > 0 && !want.is_empty() {
        g.nontrivial(true);
    }
    let got: Vec<(String, i32)> = ctx.errors().iter().map(|e| (e.description().to_string(), rank(e.severity()))).collect();
    ensure_eq!(got, want, "config:levels", "diagnostics shown (1=error .. 4=hint)");
    Ok(())
}

type Shown = (u32, u16, String, Vec<String>, i32);

fn pipeline(dir: &Path, config: bool) -> Vec<Shown> {
    let dme = dir.join("main.dme");
    let mut ctx = dm::Context::default();
    if config {
        ctx.autodetect_config(&dme);
    }
    let pp = dm::preprocessor::Preprocessor::new(&ctx, dme).unwrap();
    let indents = dm::indents::IndentProcessor::new(&ctx, pp);
    let mut parser = dm::parser::Parser::new(&ctx, indents);
    parser.enable_procs();
    let tree = parser.parse_object_tree();
    dreamchecker::run(&ctx, &tree);
    let mut v: Vec<Shown> = ctx.errors().iter().map(|e| (e.location().line, e.location().column, e.description().to_string(), e.notes().iter().map(|n| n.description().to_string()).collect(), rank(e.severity()))).collect();
    v.sort();
    v
}

fn programs(g: &G) -> R {
    let mut kinds = DOCUMENTED.to_vec();
    kinds.extend(OTHERS);
    let mut text = String::new();
    let n = 1 + g.len(0, 8);
    let mut due: BTreeSet<&str> = BTreeSet::new();
    for k in 0..n {
        let (code, kind) = *g.pick(SNIPPETS);
        text.push_str(&code.replace("{}", &k.to_string()));
        if !kind.is_empty() && kind != "none" {
            due.insert(kind);
            g.label(kind);
        }
    }
    let fatal = g.chance(1, 12);
    if fatal {
        text.push_str("/var/oops = 1 +\n");
    }
    // prefer to configure what occurs
    let pool: Vec<&str> = if g.chance(3, 4) && !due.is_empty() { due.iter().copied().collect() } else { kinds };
    let says = Says::random(g, &pool);
    let toml = says.toml(g, vec![]);
    g.note(&format!("--- main.dme\n{}--- SpacemanDMM.toml\n{}", text, toml));
    let dir = g.scratch();
    std::fs::write(dir.join("main.dme"), &text).unwrap();
    std::fs::write(dir.join("twice.dm"), "/obj/twice\n").unwrap();
    std::fs::write(dir.join("SpacemanDMM.toml"), &toml).unwrap();
    let plainly = pipeline(&dir, false);
    let configured = pipeline(&dir, true);
    let tag = kind_of;
    for kind in &due {
        ensure!(fatal || plainly.iter().any(|d| tag(&d.2) == Some(kind)), "config:kind-absent", "no diagnostic of the kind {} though the program calls for one; without configuration there are: {:?}", kind, plainly);
    }
    let mut want: Vec<Shown> = plainly.iter().filter_map(|d| says.apply(tag(&d.2), d.4).map(|s| (d.0, d.1, d.2.clone(), d.3.clone(), s))).collect();
    want.sort();
    let changed = want != plainly;
    g.label_if(changed, "filtered or re-graded");
    if changed {
        g.nontrivial(true);
    }
    for w in &want {
        ensure!(configured.contains(w), "config:missing", "with the configuration, line {} should have {:?} with severity {} (1=error .. 4=hint); shown on that line: {:?}", w.0, w.2, w.4, configured.iter().filter(|c| c.0 == w.0).collect::<Vec<_>>());
    }
    for c in &configured {
        ensure!(want.contains(c), "config:unexpected", "with the configuration, line {} should not have {:?} with severity {} (1=error .. 4=hint)", c.0, c.2, c.4);
    }
    ensure_eq!(configured.len(), want.len(), "config:count", "number of diagnostics");
    Ok(())
}

/// A string in TOML, as a basic or literal string.
fn quote(g: &G, s: &str) -> String {
    if !s.contains('\'') && !s.chars().any(|c| c.is_control()) && g.chance(1, 4) {
        return format!("'{}'", s);
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if !c.is_ascii() && g.bool() => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn word(g: &G) -> String {
    let n = 1 + g.len(0, 8);
    (0..n).map(|_| *g.pick(&['a', 'b', 'z', '/', '_', '-', '.', ' ', '"', '\\', '\'', '#', '\u{e9}', '\t', '9'])).collect()
}

fn settings(g: &G) -> R {
    let dir = g.scratch();
    let path = dir.join("SpacemanDMM.toml");
    let mut ctx = dm::Context::default();
    let says = Says::random(g, DOCUMENTED);
    let mut blocks = vec![];
    let mut top = String::new();
    let mut environment = None;
    if g.bool() {
        let e = word(g);
        top = format!("environment = {}\n", quote(g, &e));
        environment = Some(std::path::PathBuf::from(e));
    }
    let mut checker = false;
    if g.bool() {
        checker = g.bool();
        blocks.push(format!("[langserver]\ndreamchecker = {}\n", checker));
    }
    let (mut names, mut index, mut modules) = (false, None, vec![]);
    if g.bool() {
        let mut b = vec![];
        if g.bool() {
            names = g.bool();
            b.push(format!("use_typepath_names = {}\n", names));
        }
        if g.bool() {
            let w = word(g);
            b.push(format!("index_file = {}\n", quote(g, &w)));
            index = Some(w);
        }
        if g.bool() {
            modules = (0..g.len(0, 4)).map(|_| word(g)).collect();
            b.push(format!("module_directories = [{}]\n", modules.iter().map(|m| quote(g, m)).collect::<Vec<_>>().join(if g.bool() { ", " } else { ",\n  " })));
        }
        g.shuffle(&mut b);
        blocks.push(format!("[dmdoc]\n{}", b.concat()));
    }
    let mut engine = "Auxtools";
    if g.bool() {
        let (spelt, e) = *g.pick(&[("extools", "Extools"), ("Extools", "Extools"), ("auxtools", "Auxtools"), ("Auxtools", "Auxtools")]);
        engine = e;
        blocks.push(format!("[debugger]\nengine = \"{}\"\n", spelt));
    }
    let (mut rel_proc, mut rel_type) = (false, false);
    if g.bool() {
        let mut b = vec![];
        if g.bool() {
            rel_proc = g.bool();
            b.push(format!("disallow_relative_proc_definitions = {}\n", rel_proc));
        }
        if g.bool() {
            rel_type = g.bool();
            b.push(format!("disallow_relative_type_definitions = {}\n", rel_type));
        }
        g.shuffle(&mut b);
        blocks.push(format!("[code_standards]\n{}", b.concat()));
    }
    let mut passes: BTreeMap<String, bool> = BTreeMap::new();
    let mut layers: BTreeMap<String, f32> = BTreeMap::new();
    let mut hide = vec![];
    if g.bool() {
        for _ in 0..g.len(0, 4) {
            passes.insert(word(g), g.bool());
        }
        for _ in 0..g.len(0, 4) {
            layers.insert(format!("/{}", word(g)), g.range(-4000, 4000) as f32 / 16.0);
        }
        hide = (0..g.len(0, 4)).map(|_| word(g)).collect();
        let mut b = String::from("[map_renderer]\n");
        if !hide.is_empty() {
            b.push_str(&format!("hide_invisible = [{}]\n", hide.iter().map(|m| quote(g, m)).collect::<Vec<_>>().join(", ")));
        }
        let table = |name: &str, rows: Vec<String>| if rows.is_empty() { String::new() } else { format!("[map_renderer.{}]\n{}\n", name, rows.join("\n")) };
        let p = table("render_passes", passes.iter().map(|(k, v)| format!("{} = {}", quote(g, k), v)).collect());
        let l = table("fancy_layers", layers.iter().map(|(k, v)| format!("{} = {:?}", quote(g, k), v)).collect());
        b.push_str(&if g.bool() { p.clone() + &l } else { l + &p });
        blocks.push(b);
    }
    let toml = top + &says.toml(g, blocks);
    g.note(&format!("--- SpacemanDMM.toml\n{}", toml));
    std::fs::write(&path, &toml).unwrap();
    ctx.force_config(&path);
    ensure!(ctx.errors().is_empty(), "config:rejected", "a sound configuration was rejected: {:?}", ctx.errors()[0]);
    g.nontrivial(true);
    let check = |ctx: &dm::Context| -> R {
        let c = ctx.config();
        ensure_eq!(c.environment, environment, "config:environment", "environment");
        ensure_eq!(c.langserver.dreamchecker, checker, "config:langserver", "langserver.dreamchecker");
        ensure_eq!(c.dmdoc.use_typepath_names, names, "config:dmdoc", "dmdoc.use_typepath_names");
        ensure_eq!(c.dmdoc.index_file, index, "config:dmdoc", "dmdoc.index_file");
        ensure_eq!(c.dmdoc.module_directories, modules, "config:dmdoc", "dmdoc.module_directories");
        ensure_eq!(format!("{:?}", c.debugger.engine), engine, "config:debugger", "debugger.engine");
        ensure_eq!(c.code_standards.disallow_relative_proc_definitions, rel_proc, "config:standards", "disallow_relative_proc_definitions");
        ensure_eq!(c.code_standards.disallow_relative_type_definitions, rel_type, "config:standards", "disallow_relative_type_definitions");
        let p: BTreeMap<String, bool> = c.map_renderer.render_passes.iter().map(|(k, v)| (k.clone(), *v)).collect();
        ensure_eq!(p, passes, "config:map_renderer", "map_renderer.render_passes");
        let l: BTreeMap<String, f32> = c.map_renderer.fancy_layers.iter().map(|(k, v)| (k.clone(), *v)).collect();
        ensure_eq!(l, layers, "config:map_renderer", "map_renderer.fancy_layers");
        ensure_eq!(c.map_renderer.hide_invisible, hide, "config:map_renderer", "map_renderer.hide_invisible");
        Ok(())
    };
    check(&ctx)?;
    // A file that cannot be understood is reported and changes nothing.
    let bad = *g.pick(&["[diagnostics]\nmacro_redefined = \"loud\"\n", "[diagnostics\n", "[display]\nerror_level = 3\n", "[langserver]\ndreamchecker = \"yes\"\n", "a = = 2\n", "[dmdoc]\nindex_file = [1]\n", "[map_renderer]\nfancy_layers = 3\n", "[code_standards]\ndisallow_relative_proc_definitions = 1\n"]);
    let blank = g.below(4) as u32;
    let badpath = dir.join("bad.toml");
    std::fs::write(&badpath, format!("{}{}", "\n".repeat(blank as usize), bad)).unwrap();
    ctx.force_config(&badpath);
    check(&ctx)?;
    let shown: Vec<(String, i32, u32)> = ctx.errors().iter().map(|e| (e.description().to_string(), rank(e.severity()), e.location().line)).collect();
    // the complaint itself is subject to the level in force
    if says.apply(None, 1).is_some() {
        ensure_eq!(shown.len(), 1, "config:bad", "complaints about a malformed configuration");
        ensure!(shown[0].1 == 1, "config:bad", "a malformed configuration is an error, got {:?}", shown[0]);
        ensure!(shown[0].2 > blank && shown[0].2 <= blank + 2, "config:bad-line", "the malformed setting is on line {} or {}, reported on {}", blank + 1, blank + 2, shown[0].2);
    } else {
        ensure_eq!(shown.len(), 0, "config:bad", "complaints with error_level disabled");
    }
    Ok(())
}

fn standards(g: &G) -> R {
    let (procs, types) = (g.bool(), g.bool());
    let dir = g.scratch();
    let path = dir.join("SpacemanDMM.toml");
    std::fs::write(&path, format!("[code_standards]\ndisallow_relative_proc_definitions = {}\ndisallow_relative_type_definitions = {}\n", procs, types)).unwrap();
    let mut out: Vec<String> = vec![];
    let mut want: Vec<(u32, String)> = vec![];
    let n = 1 + g.len(0, 6);
    for k in 0..n {
        let slash = g.bool();
        let s = if slash { "/" } else { "" };
        match g.below(4) {
            0 => {
                out.push(format!("{}proc/f{}()", s, k));
                if !slash {
                    want.push((out.len() as u32, "relatively pathed proc defined here".into()));
                }
                out.push("\treturn 1".into());
            },
            1 => {
                out.push(format!("{}obj/t{}/proc/f()", s, k));
                if !slash {
                    want.push((out.len() as u32, "relatively pathed proc defined here".into()));
                }
                out.push("\treturn 1".into());
            },
            _ => {
                out.push(format!("{}obj/t{}", s, k));
                if !slash {
                    want.push((out.len() as u32, "relatively pathed type defined here".into()));
                }
                for i in 0..1 + g.below(3) {
                    match g.below(3) {
                        0 => out.push(format!("\tvar/v{} = 1", i)),
                        1 => {
                            out.push(format!("\tproc/p{}()", i));
                            want.push((out.len() as u32, "relatively pathed proc defined here".into()));
                            out.push("\t\treturn 1".into());
                        },
                        _ => {
                            out.push(format!("\tsub{}", i));
                            want.push((out.len() as u32, "relatively pathed type defined here".into()));
                            out.push(format!("\t\tname = \"{}\"", i));
                        },
                    }
                }
            },
        }
    }
    let text = out.join("\n") + "\n";
    g.note(&format!("--- code ({} procs, {} types)\n{}", procs, types, text));
    want.retain(|w| if w.1.contains("proc") { procs } else { types });
    if !want.is_empty() {
        g.nontrivial(true);
    }
    let mut ctx = dm::Context::default();
    ctx.force_config(&path);
    let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "test.dm".into(), text.as_str());
    let indents = dm::indents::IndentProcessor::new(&ctx, pp);
    let mut parser = dm::parser::Parser::new(&ctx, indents);
    parser.enable_procs();
    let _ = parser.parse_object_tree();
    crate::world::same(&crate::world::diags(&ctx), &want, "standards")?;
    ensure!(ctx.errors().iter().all(|e| e.severity() == dm::Severity::Warning), "standards:severity", "code standards are warnings");
    Ok(())
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "levels: at least one diagnostic is hidden or re-graded and one is shown; programs: the configuration changes what is shown; settings: always; standards: at least one definition is reported",
        assumptions: &["which documented kind a message belongs to is taken from a table of message fragments written from CONFIGURING.md; the diagnostics before filtering are those of a run without configuration"],
        subs: vec![
            Sub { name: "levels", quick: 30000, thorough: 900000, run: levels },
            Sub { name: "programs", quick: 12000, thorough: 300000, run: programs },
            Sub { name: "settings", quick: 12000, thorough: 300000, run: settings },
            Sub { name: "standards", quick: 20000, thorough: 600000, run: standards },
        ],
    }
}
