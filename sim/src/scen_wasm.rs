//! C25: the browser's search object (web/wasm/src/lib.rs, the real file; only the JavaScript value type is a stand-in).
use crate::cfg::Cfg;
use crate::oracle::{self, ref_op};
use crate::report::{self, probe};
use crate::rng::R;
use crate::scen::{bad, Out};
use crate::scen_par::Slot;
use crate::sched;
use serde_json::{json, Value};
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use ndarray::{Array1, Array2};
use symbolic_regression::{Dataset, LossKind, Operators, Options, PopMember, SearchEngine};
use symbolic_regression_wasm::WasmSearch;
use wasm_bindgen::JsValue;

// ---------------------------------------------------------------- the text

/// A plain reading of unquoted CSV text: header and rows, or why it is not one.
fn read(text: &str, headers: bool) -> Result<(Vec<String>, Vec<Vec<f64>>), String> {
    let mut lines = text.split(['\n', '\r']).filter(|l| !l.is_empty());
    let cells = |l: &str| l.split(',').map(|c| c.trim().to_string()).collect::<Vec<_>>();
    let mut names = Vec::new();
    let mut width = None;
    if headers {
        if let Some(l) = lines.next() {
            names = cells(l);
            width = Some(names.len());
        }
    }
    let mut rows = Vec::new();
    for l in lines {
        let c = cells(l);
        if *width.get_or_insert(c.len()) != c.len() {
            return Err("ragged".into());
        }
        let mut r = Vec::new();
        for v in &c {
            r.push(v.parse::<f64>().map_err(|_| format!("not a number: {v:?}"))?);
        }
        rows.push(r);
    }
    if rows.is_empty() {
        return Err("no rows".into());
    }
    Ok((names, rows))
}

struct Input {
    text: String,
    opts: Value,
    unary: Vec<&'static str>,
    binary: Vec<&'static str>,
    ternary: Vec<&'static str>,
    /// what a correct reading gives: names and the columns of x, y, w, row by row; or an error
    want: Result<Data, String>,
    kind: LossKind,
    damage: &'static str,
    /// an option or token list of a kind it cannot have
    garbled: Option<String>,
}
#[derive(Clone)]
struct Data {
    names: Vec<String>,
    x: Vec<Vec<f64>>,
    y: Vec<f64>,
    w: Option<Vec<f64>>,
    /// the weights as written, negative ones too
    wraw: Option<Vec<f64>>,
    finite: bool,
    /// the column names can be told apart from each other and from numbers
    clean: bool,
}

const FURTHER: &[(&str, &[&str])] = &[
    ("complexity_of_constants", &["1", "2", "3"]),
    ("complexity_of_variables", &["1", "2"]),
    ("maxdepth", &["3", "5", "10"]),
    ("adaptive_parsimony_scaling", &["0", "20", "300.5"]),
    ("crossover_probability", &["0", "0.3", "1"]),
    ("perturbation_factor", &["0.05", "1.5"]),
    ("probability_negate_constant", &["0.2", "0.9"]),
    ("tournament_selection_n", &["1", "2", "6"]),
    ("tournament_selection_p", &["0.5", "1"]),
    ("alpha", &["0.1", "10"]),
    ("optimizer_nrestarts", &["0", "1"]),
    ("optimizer_probability", &["0", "1"]),
    ("optimizer_iterations", &["0", "1", "5"]),
    ("optimizer_f_calls_limit", &["10", "100"]),
    ("fraction_replaced_hof", &["0", "0.4"]),
    ("fraction_replaced_guesses", &["0.5"]),
    ("use_frequency", &["false"]),
    ("use_frequency_in_tournament", &["false"]),
    ("skip_mutation_failures", &["false"]),
    ("annealing", &["true", "false"]),
    ("progress", &["true", "false"]),
    ("output_style", &["\"Ansi\""]),
    ("something_else", &["[1]"]),
];
const WEIGHTS: &[&str] = &[
    "mutate_constant", "mutate_operator", "mutate_feature", "swap_operands", "rotate_tree", "add_node", "insert_node", "delete_node", "simplify",
    "randomize", "do_nothing", "optimize", "form_connection", "break_connection",
];

const NAMES: [&str; 12] = ["x0", "x1", "a", "b2", "press_ure", "T", "θ", "sin", "add", "e", "rate", "x2"];
const UN: [&str; 12] = ["sin", "cos", "exp", "log", "sqrt", "abs", "neg", "abs2", "inv", "tanh", "-", "cbrt"];
const BI: [&str; 8] = ["add", "sub", "mul", "div", "pow", "min", "max", "atan2"];

fn number(r: &mut R) -> f64 {
    match r.below(8) {
        0 => r.range(-5, 5) as f64,
        1 => (r.f() - 0.5) * 1e6,
        2 => (r.f() - 0.5) * 1e-6,
        _ => (r.f() - 0.5) * 6.0,
    }
}
fn written(r: &mut R, v: f64) -> String {
    let s = match r.below(6) {
        0 => format!("{v:e}"),
        1 => format!("{v:E}"),
        2 if v >= 0.0 => format!("+{v}"),
        _ => format!("{v}"),
    };
    match r.below(10) {
        0 => format!(" {s}"),
        1 => format!("{s}  "),
        2 => format!("\t{s}"),
        _ => s,
    }
}

fn input(c: &Cfg, tag: &str) -> Input {
    let k = |s: &str| format!("{tag}{s}");
    let mut r = c.rng(&k("csv"));
    let n_cols = c.range(&k("cols"), 1, 6) as usize;
    let n_rows = c.get(&k("rows"), |r| *r.pick(&[1, 2, 3, 5, 8, 12, 20, 40])) as usize;
    let headers = c.flag(&k("headers"), 70);
    let mut names: Vec<&str> = NAMES.to_vec();
    for i in (1..names.len()).rev() {
        names.swap(i, r.below(i as u64 + 1) as usize);
    }
    let eol = *r.pick(&["\n", "\n", "\r\n"]);
    let extra = (r.below(6) == 0) as u64;
    let w_col = if c.flag(&k("wset"), 35) { Some(r.below(n_cols as u64 + extra) as usize) } else { None };
    let mut text = String::new();
    if headers {
        text += &names[..n_cols].join(*r.pick(&[",", ", ", " ,"]));
        text += eol;
    }
    let odd = c.flag(&k("nonfinite"), 4);
    let quotes = c.flag(&k("quotes"), 10);
    let mut plain = text.clone();
    for i in 0..n_rows {
        for j in 0..n_cols {
            let v = if odd && r.below(10) == 0 { *r.pick(&[f64::NAN, f64::INFINITY, -f64::INFINITY]) } else { number(&mut r) };
            let v = if Some(j) == w_col { if r.below(12) == 0 { 0.0 } else { v.abs() } } else { v };
            let s = written(&mut r, v);
            if quotes && r.below(3) == 0 {
                text += &format!("\"{}\"", s.trim());
            } else {
                text += &s;
            }
            plain += &s;
            if j + 1 < n_cols {
                text.push(',');
                plain.push(',');
            }
        }
        if i + 1 < n_rows || r.below(4) > 0 {
            text += eol;
            plain += eol;
        }
        if r.below(40) == 0 {
            text += eol;
            plain += eol;
        }
    }
    let mut damage = "none";
    if c.flag(&k("damage"), 35) {
        if quotes {
            text = plain.clone();
        }
        let cut = |r: &mut R, t: &str| {
            let mut p = r.below(t.len() as u64 + 1) as usize;
            while !t.is_char_boundary(p) {
                p -= 1;
            }
            p
        };
        match c.range(&k("damagekind"), 0, 5) {
            0 => {
                damage = "text_cut_off";
                let p = cut(&mut r, &text);
                text.truncate(p);
            }
            1 => {
                damage = "text_byte_changed";
                let p = cut(&mut r, &text);
                let n = text[p..].chars().next().map_or(0, |c| c.len_utf8());
                text.replace_range(p..p + n, *r.pick(&["x", ",", ";", " ", "7", "\n", "-", "."]));
            }
            2 => {
                damage = "text_piece_lost";
                let (a, b) = (cut(&mut r, &text), cut(&mut r, &text));
                let mut e = a.max(b).min(a.min(b) + 9);
                while !text.is_char_boundary(e) {
                    e += 1;
                }
                text.replace_range(a.min(b)..e, "");
            }
            3 => {
                damage = "text_piece_doubled";
                let (a, b) = (cut(&mut r, &text), cut(&mut r, &text));
                let s = text[a.min(b)..a.max(b)].to_string();
                text.insert_str(a.max(b), &s);
            }
            4 => {
                damage = "text_empty";
                text = (*r.pick(&["", "\n", " ", "\r\n\r\n", "a,b", "a,b\n"])).to_string();
            }
            _ => {
                damage = "text_tail_garbage";
                text += *r.pick(&["\0", ",", "1", "\n1,2,3,4,5,6,7", "\n,", "\n \n"]);
            }
        }
        plain = text.clone();
    }
    // roles
    let idx = |r: &mut R, wild: bool| if wild && r.below(6) == 0 { r.below(8) as usize } else { r.below(n_cols as u64) as usize };
    let y_col = if c.flag(&k("yset"), 60) { Some(idx(&mut r, true)) } else { None };
    let yc = y_col.unwrap_or(n_cols - 1);
    let x_cols: Option<Vec<usize>> = if c.flag(&k("xset"), 45) {
        let mut v: Vec<usize> = (0..1 + r.below(n_cols as u64 + 1)).map(|_| idx(&mut r, true)).collect();
        if r.below(4) > 0 {
            v.retain(|&i| i != yc && Some(i) != w_col);
        }
        Some(v)
    } else {
        None
    };
    let vf = [0.0, 0.0, 0.1, 0.25, 0.5, 0.8, 0.9, 2.0, -0.5][c.range(&k("vf"), 0, 8) as usize];
    let (kind, kname) = match c.get(&k("loss"), |r| *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7])) {
        0 => (LossKind::Mse, "mse"),
        1 => (LossKind::Mae, "MAE"),
        2 => (LossKind::Rmse, "rmse"),
        3 => (LossKind::Huber { delta: 0.8 }, "huber"),
        4 => (LossKind::LogCosh, "logcosh"),
        5 => (LossKind::Lp { p: 1.5 }, "lp"),
        6 => (LossKind::Quantile { tau: 0.3 }, "quantile"),
        _ => (LossKind::EpsilonInsensitive { eps: 0.2 }, "epsilon-insensitive"),
    };
    let some = |r: &mut R, v: &[&'static str], lo: u64, hi: u64| {
        let n = lo + r.below(hi - lo + 1);
        let mut out: Vec<&'static str> = Vec::new();
        for _ in 0..n {
            let o = *r.pick(v);
            if !out.contains(&o) && !(o == "neg" && out.contains(&"-")) && !(o == "-" && out.contains(&"neg")) {
                out.push(o);
            }
        }
        out
    };
    let unary = some(&mut r, &UN, 0, 4);
    let binary = some(&mut r, &BI, 1, 4);
    let ternary = if r.below(4) == 0 { vec![*r.pick(&["fma", "clamp"])] } else { vec![] };
    let mut opts = json!({
        "has_headers": headers, "x_columns": x_cols, "y_column": y_col, "weights_column": w_col, "validation_fraction": vf,
        "loss_kind": kname, "huber_delta": 0.8, "lp_p": 1.5, "quantile_tau": 0.3, "epsilon_insensitive_eps": 0.2,
        "seed": c.range(&k("seed"), 0, 1 << 30), "niterations": c.range(&k("iters"), 1, 4), "populations": c.range(&k("pops"), 1, 3),
        "population_size": c.range(&k("popsize"), 4, 14), "ncycles_per_iteration": c.range(&k("ncycles"), 1, 12),
        "maxsize": *r.pick(&[5, 8, 12, 20]), "tournament_selection_n": 3, "topn": 3,
        "batching": c.flag(&k("batching"), 15), "batch_size": c.range(&k("batchsize"), 1, 20),
        "migration": c.flag(&k("migration"), 60), "hof_migration": c.flag(&k("hofmig"), 60), "fraction_replaced": 0.1,
        "should_optimize_constants": c.flag(&k("optconst"), 50), "optimizer_iterations": 2, "optimizer_probability": 0.3,
        "use_baseline": c.flag(&k("baseline"), 80), "should_simplify": c.flag(&k("simplify"), 40),
        "warmup_maxsize_by": *r.pick(&[0.0, 0.0, 0.5]), "parsimony": *r.pick(&[0.0, 0.01]),
    });
    // further options, each sometimes; the rest is left to its default
    for (name, vals) in FURTHER {
        if r.below(6) == 0 {
            opts[*name] = serde_json::from_str(r.pick::<&str>(vals)).unwrap();
        }
    }
    if r.below(3) == 0 {
        let mut w = json!({});
        for n in WEIGHTS {
            if r.below(3) == 0 {
                w[*n] = json!(*r.pick(&[0.0, 0.5, 1.0, 3.0]));
            }
        }
        w["do_nothing"] = json!(0.1);
        opts["mutation_weights"] = w;
    }
    for n in ["hof_migration", "use_baseline", "should_simplify", "batching", "parsimony", "warmup_maxsize_by", "topn", "maxsize", "seed", "fraction_replaced"] {
        if r.below(12) == 0 {
            opts.as_object_mut().unwrap().remove(n);
        }
    }
    let mut garbled = None;
    if c.flag(&k("garbled"), 8) {
        let (n, bad) = *r.pick(&[
            ("niterations", "-1"), ("populations", "2.5"), ("population_size", "\"12\""), ("maxsize", "-3"), ("maxdepth", "null"), ("seed", "-7"),
            ("seed", "0.5"), ("topn", "[]"), ("batch_size", "1.25"), ("parsimony", "\"much\""), ("alpha", "true"), ("loss_kind", "3"),
            ("loss_kind", "\"squares\""), ("has_headers", "\"yes\""), ("x_columns", "[0.5]"), ("x_columns", "3"), ("y_column", "-1"),
            ("y_column", "\"a\""), ("weights_column", "1.5"), ("validation_fraction", "\"half\""), ("batching", "1"), ("mutation_weights", "4"),
            ("complexity_of_constants", "70000"), ("complexity_of_variables", "-1"), ("optimizer_iterations", "2.5"), ("huber_delta", "{}"),
        ]);
        opts[n] = serde_json::from_str(bad).unwrap();
        garbled = Some(format!("{n}: {bad}"));
    }
    // what must come of it
    let want = (|| {
        if let Some(g) = &garbled {
            return Err(g.clone());
        }
        let (head, rows) = read(&plain, headers)?;
        let n = rows[0].len();
        if n < 2 {
            return Err("fewer than two columns".to_string());
        }
        let y = y_col.unwrap_or(n - 1);
        if y >= n || w_col.is_some_and(|w| w >= n || w == y) {
            return Err("roles".into());
        }
        let mut x = match &x_cols {
            Some(v) => v.clone(),
            None => (0..n).filter(|&i| i != y && Some(i) != w_col).collect(),
        };
        x.sort_unstable();
        x.dedup();
        if x.is_empty() || x.iter().any(|&i| i >= n || i == y || Some(i) == w_col) {
            return Err("roles".into());
        }
        let names: Vec<String> = x.iter().enumerate().map(|(i, &j)| if headers { head[j].clone() } else { format!("x{i}") }).collect();
        let used: Vec<usize> = x.iter().copied().chain([y]).chain(w_col).collect();
        let word = |n: &str| {
            let mut c = n.chars();
            c.next().is_some_and(|c| c.is_alphabetic() || c == '_') && c.all(|c| c.is_alphanumeric() || c == '_') && n != "inf" && n != "NaN"
        };
        let clean = names.iter().enumerate().all(|(i, n)| word(n) && !names[..i].contains(n));
        Ok(Data {
            names,
            clean,
            x: rows.iter().map(|r| x.iter().map(|&j| r[j]).collect()).collect(),
            y: rows.iter().map(|r| r[y]).collect(),
            w: w_col.map(|w| rows.iter().map(|r| r[w].abs()).collect()),
            wraw: w_col.map(|w| rows.iter().map(|r| r[w]).collect()),
            finite: rows.iter().all(|r| used.iter().all(|&j| r[j].is_finite())) && w_col.is_none_or(|w| rows.iter().all(|r| r[w] >= 0.0)),
        })
    })();
    Input { text, opts, unary, binary, ternary, want, kind, damage, garbled }
}

fn js<T: serde::Serialize>(v: T) -> JsValue {
    JsValue(Some(serde_json::to_value(v).unwrap()))
}
fn open(i: &Input) -> Result<WasmSearch, JsValue> {
    WasmSearch::new(i.text.clone(), js(&i.opts), js(&i.unary), js(&i.binary), js(&i.ternary))
}

// ---------------------------------------------------------------- the printed equation

#[derive(Debug)]
enum Eq {
    Num(f64),
    Var(usize),
    Call(String, Vec<Eq>),
}
struct P<'a> {
    s: &'a [char],
    at: usize,
    names: &'a [String],
}
impl P<'_> {
    fn ws(&mut self) {
        while self.at < self.s.len() && self.s[self.at] == ' ' {
            self.at += 1;
        }
    }
    fn peek(&mut self) -> Option<char> {
        self.ws();
        self.s.get(self.at).copied()
    }
    fn sum(&mut self) -> Option<Eq> {
        let mut l = self.product()?;
        while let Some(o @ ('+' | '-')) = self.peek() {
            self.at += 1;
            let r = self.product()?;
            l = Eq::Call(if o == '+' { "add" } else { "sub" }.into(), vec![l, r]);
        }
        Some(l)
    }
    fn product(&mut self) -> Option<Eq> {
        let mut l = self.prefix()?;
        while let Some(o @ ('*' | '/')) = self.peek() {
            self.at += 1;
            let r = self.prefix()?;
            l = Eq::Call(if o == '*' { "mul" } else { "div" }.into(), vec![l, r]);
        }
        Some(l)
    }
    fn prefix(&mut self) -> Option<Eq> {
        if self.peek()? == '-' {
            self.at += 1;
            let e = self.prefix()?;
            return Some(Eq::Call("neg".into(), vec![e]));
        }
        self.atom()
    }
    fn atom(&mut self) -> Option<Eq> {
        let c = self.peek()?;
        if c == '(' {
            self.at += 1;
            let e = self.sum()?;
            if self.peek()? != ')' {
                return None;
            }
            self.at += 1;
            return Some(e);
        }
        let from = self.at;
        if c.is_ascii_digit() || c == '.' {
            while self.at < self.s.len() && (self.s[self.at].is_ascii_digit() || self.s[self.at] == '.') {
                self.at += 1;
            }
            if matches!(self.s.get(self.at), Some('e' | 'E')) {
                self.at += 1;
                if matches!(self.s.get(self.at), Some('+' | '-')) {
                    self.at += 1;
                }
                while self.at < self.s.len() && self.s[self.at].is_ascii_digit() {
                    self.at += 1;
                }
            }
            let t: String = self.s[from..self.at].iter().collect();
            return t.parse().ok().map(Eq::Num);
        }
        while self.at < self.s.len() && (self.s[self.at].is_alphanumeric() || self.s[self.at] == '_') {
            self.at += 1;
        }
        let t: String = self.s[from..self.at].iter().collect();
        if self.peek() == Some('(') {
            self.at += 1;
            let mut args = vec![self.sum()?];
            while self.peek()? == ',' {
                self.at += 1;
                args.push(self.sum()?);
            }
            if self.peek()? != ')' {
                return None;
            }
            self.at += 1;
            return Some(Eq::Call(t, args));
        }
        if let Some(i) = self.names.iter().position(|n| *n == t) {
            return Some(Eq::Var(i));
        }
        match t.as_str() {
            "inf" => Some(Eq::Num(f64::INFINITY)),
            "NaN" => Some(Eq::Num(f64::NAN)),
            _ => None,
        }
    }
}
fn understand(s: &str, names: &[String]) -> Option<Eq> {
    let chars: Vec<char> = s.chars().collect();
    let mut p = P { s: &chars, at: 0, names };
    let e = p.sum()?;
    (p.peek().is_none()).then_some(e)
}
fn value(e: &Eq, row: &[f64], broken: &mut bool, wild: &mut bool) -> Option<f64> {
    Some(match e {
        Eq::Num(v) => *v,
        Eq::Var(i) => row[*i],
        Eq::Call(n, args) => {
            let mut a = Vec::new();
            for x in args {
                a.push(value(x, row, broken, wild)?);
            }
            if (n == "min" || n == "max") && a[0] == a[1] && a[0].to_bits() != a[1].to_bits() {
                *wild = true;
            }
            // the argument's own rounding is magnified here
            if matches!(n.as_str(), "sin" | "cos" | "tanh" | "exp" | "pow") && a.iter().any(|v| v.abs() > 1e8) {
                *wild = true;
            }
            let v = ref_op::<f64>(n, &a)?;
            if !v.is_finite() {
                *broken = true;
            }
            v
        }
    })
}
struct Vals {
    y: Vec<f64>,
    broken: bool,
    wild: bool,
}
fn values(eq: &str, d: &Data, rows: &[usize]) -> Result<Vals, (String, String)> {
    let Some(e) = understand(eq, &d.names) else {
        return bad("unreadable", format!("the printed equation {eq:?} is not one over {:?}", d.names));
    };
    let mut o = Vals { y: vec![], broken: false, wild: false };
    for &r in rows {
        match value(&e, &d.x[r], &mut o.broken, &mut o.wild) {
            Some(v) => {
                o.broken |= !v.is_finite();
                o.y.push(v)
            }
            None => return bad("unreadable", format!("the printed equation {eq:?} calls something that is no operator")),
        }
    }
    Ok(o)
}
fn near(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1e-30 + scale.abs().max(a.abs()).max(b.abs()))
}

// ---------------------------------------------------------------- the session

type Front = Vec<(String, u64, Option<f64>, Option<f64>, String)>;
fn front(v: &Value) -> Result<Front, (String, String)> {
    let mut out = vec![];
    for m in v.as_array().cloned().unwrap_or_default() {
        out.push((
            m["id"].as_str().unwrap_or("?").to_string(),
            m["complexity"].as_u64().unwrap_or(0),
            m["loss"].as_f64(),
            m["cost"].as_f64(),
            m["equation"].as_str().unwrap_or("").to_string(),
        ));
    }
    Ok(out)
}
fn ok(r: Result<JsValue, JsValue>, what: &str) -> Result<Value, (String, String)> {
    match r {
        Ok(v) => Ok(v.0.unwrap_or(Value::Null)),
        Err(e) => bad("refused", format!("{what} failed: {:?}", e.0)),
    }
}
fn rows_of(v: &Value, n: usize, at: &str) -> Result<(Vec<usize>, Vec<usize>), (String, String)> {
    let g = |k: &str| -> Vec<usize> { v[k].as_array().map(|a| a.iter().map(|i| i.as_u64().unwrap_or(u64::MAX) as usize).collect()).unwrap_or_default() };
    let (t, w) = (g("train"), g("val"));
    let mut seen = vec![0; n];
    for &i in t.iter().chain(&w) {
        if i >= n {
            return bad("split", format!("{at}: row {i} of {n}"));
        }
        seen[i] += 1;
    }
    if let Some(i) = seen.iter().position(|&k| k != 1) {
        return bad("split", format!("{at}: row {i} of the file is in {} of the two sets", seen[i]));
    }
    Ok((t, w))
}

struct Session<'a> {
    s: WasmSearch,
    i: &'a Input,
    d: &'a Data,
    train: Vec<usize>,
    val: Vec<usize>,
    k: usize,
    done: u64,
    total: Option<u64>,
    evals: u64,
}
impl Session<'_> {
    fn snap(&mut self, v: &Value, n: u64) -> Out {
        opf_work();
        let (t, c, e) = (v["total_cycles"].as_u64().unwrap_or(0), v["cycles_completed"].as_u64().unwrap_or(0), v["total_evals"].as_u64().unwrap_or(0));
        if *self.total.get_or_insert(t) != t {
            return bad("accounting", format!("the total number of cycles changed to {t}"));
        }
        let want = (self.done + n).min(t);
        if c != want || e < self.evals || (c == self.done && e != self.evals && self.done > 0) {
            return bad("accounting", format!("{} cycles done, {n} more asked for: reports {c} of {t}, evaluations {} -> {e}", self.done, self.evals));
        }
        if self.s.is_finished() != (c == t) {
            return bad("accounting", format!("finished is {} after {c} of {t} cycles", self.s.is_finished()));
        }
        self.done = c;
        self.evals = e;
        let pts = v["pareto_points"].as_array().map_or(0, |a| a.len());
        let all = front(&ok(self.s.best_equations(100_000), "best_equations")?)?;
        if pts != all.len().min(self.k) {
            return bad("front", format!("the snapshot has {pts} points of a front with {} (limit {})", all.len(), self.k));
        }
        for (a, p) in all[all.len() - pts..].iter().zip(front(&v["pareto_points"])?) {
            if a.0 != p.0 || a.1 != p.1 || a.2 != p.2 || a.3 != p.3 {
                return bad("front", format!("snapshot point {p:?} but front has {a:?}"));
            }
        }
        for w in all.windows(2) {
            if w[0].1 >= w[1].1 || w[0].2 <= w[1].2 {
                return bad("front", format!("front not strictly improving: {:?} then {:?}", w[0], w[1]));
            }
        }
        let best = front(&json!([v["best"]]))?.remove(0);
        for m in all.iter().chain([&best]) {
            self.member(m)?;
        }
        Ok(())
    }
    /// loss and printed form of one shown equation, on the rows of the file it was trained on
    fn member(&self, m: &(String, u64, Option<f64>, Option<f64>, String)) -> Out {
        if !self.d.clean {
            return Ok(());
        }
        let e = values(&m.4, self.d, &self.train)?;
        if !self.d.finite || e.wild || e.y.iter().any(|v| v.abs() > 1e100) {
            return Ok(());
        }
        let y: Vec<f64> = self.train.iter().map(|&r| self.d.y[r]).collect();
        let w: Option<Vec<f64>> = self.d.w.as_ref().map(|w| self.train.iter().map(|&r| w[r]).collect());
        if e.broken {
            if let Some(l) = m.2 {
                return bad("loss", format!("{:?} has no finite value on some training row but loss {l}", m.4));
            }
            return Ok(());
        }
        let (l, scale) = oracle::loss::<f64>(self.i.kind, &e.y, &y, w.as_deref());
        match m.2 {
            None if l < 1e150 => bad("loss", format!("{:?} is shown with an infinite loss; it is {l}", m.4)),
            Some(g) if !near(g, l, scale) && l < 1e150 => bad("loss", format!("{:?} is shown with loss {g:e}; on the training rows it is {l:e}", m.4)),
            _ => Ok(()),
        }
    }
    fn evaluate(&self, m: &(String, u64, Option<f64>, Option<f64>, String), which: &str) -> Out {
        opf_work();
        let rows = if which == "train" { &self.train } else { &self.val };
        let got = self.s.evaluate_member(m.0.clone(), which.to_string());
        if which == "val" && rows.is_empty() {
            return match got {
                Ok(_) => bad("answer", "values for a validation set that does not exist"),
                Err(_) => Ok(()),
            };
        }
        if !self.d.clean {
            return Ok(());
        }
        let e = values(&m.4, self.d, rows)?;
        let got = match got {
            Ok(v) => v.0.unwrap_or(Value::Null),
            Err(x) => {
                if e.broken || e.wild || !self.d.finite {
                    probe("evaluations_without_value", 1);
                    return Ok(());
                }
                return bad("answer", format!("evaluation of the shown equation {} ({:?}) failed: {:?}", m.0, m.4, x.0));
            }
        };
        if e.wild || !self.d.finite || e.y.iter().any(|v| !v.is_finite() || v.abs() > 1e100) {
            return Ok(());
        }
        let yh: Vec<f64> = got["yhat"].as_array().map(|a| a.iter().map(|v| v.as_f64().unwrap_or(f64::NAN)).collect()).unwrap_or_default();
        if yh.len() != rows.len() {
            return bad("answer", format!("{} values for {} {which} rows", yh.len(), rows.len()));
        }
        let top = e.y.iter().fold(0.0f64, |a, v| a.max(v.abs()));
        for (j, (a, b)) in yh.iter().zip(&e.y).enumerate() {
            if !near(*a, *b, 0.0) && (a - b).abs() > 1e-13 * top {
                return bad("answer", format!("{:?} on {which} row {j} (line {}): answered {a:e}, is {b:e}", m.4, rows[j]));
            }
        }
        let y: Vec<f64> = rows.iter().map(|&r| self.d.y[r]).collect();
        let w: Vec<f64> = rows.iter().map(|&r| self.d.w.as_ref().map_or(1.0, |w| w[r])).collect();
        let sw: f64 = w.iter().sum();
        if sw > 0.0 {
            let res: Vec<f64> = yh.iter().zip(&y).map(|(a, b)| (a - b).abs()).collect();
            let mse = res.iter().zip(&w).map(|(r, w)| w * r * r).sum::<f64>() / sw;
            let mae = res.iter().zip(&w).map(|(r, w)| w * r).sum::<f64>() / sw;
            let g = |k: &str| got["metrics"][k].as_f64().unwrap_or(f64::NAN);
            for (k, v) in [
                ("n", y.len() as f64),
                ("mse", mse),
                ("mae", mae),
                ("rmse", mse.sqrt()),
                ("min_abs_err", res.iter().copied().fold(f64::INFINITY, f64::min)),
                ("max_abs_err", res.iter().copied().fold(0.0, f64::max)),
            ] {
                if !near(g(k), v, 0.0) {
                    return bad("metric", format!("{k} of {:?} on {which}: answered {}, is {v}", m.4, g(k)));
                }
            }
            let ym = y.iter().zip(&w).map(|(y, w)| y * w).sum::<f64>() / sw;
            let sst: f64 = y.iter().zip(&w).map(|(y, w)| w * (y - ym) * (y - ym)).sum();
            let size: f64 = y.iter().zip(&w).map(|(y, w)| w * y * y).sum();
            if sst > 1e-9 * size && sst > 0.0 {
                let r2 = 1.0 - mse * sw / sst;
                if (g("r2") - r2).abs() > 1e-6 * (1.0 + r2.abs()) {
                    return bad("metric", format!("r2 of {:?} on {which}: answered {}, is {r2}", m.4, g("r2")));
                }
            }
            let n = y.len() as f64;
            let (ma, mb) = (yh.iter().sum::<f64>() / n, y.iter().sum::<f64>() / n);
            let (mut ab, mut aa, mut bb) = (0.0, 0.0, 0.0);
            for (a, b) in yh.iter().zip(&y) {
                ab += (a - ma) * (b - mb);
                aa += (a - ma) * (a - ma);
                bb += (b - mb) * (b - mb);
            }
            let solid = |v: f64, q: &[f64]| v > 1e-9 * q.iter().map(|x| x * x).sum::<f64>() && v > 1e-200;
            if solid(aa, &yh) && solid(bb, &y) {
                let corr = ab / (aa.sqrt() * bb.sqrt());
                if (g("corr") - corr).abs() > 1e-6 {
                    return bad("metric", format!("corr of {:?} on {which}: answered {}, is {corr}", m.4, g("corr")));
                }
            }
        }
        probe("evaluations_compared", 1);
        Ok(())
    }
}
fn opf_work() {
    crate::ops::opf().losses += 1;
    sched::preempt();
}

/// The options as written, read independently; what is left out has the engine's default.
fn engine_options(i: &Input) -> Options<f64, 3> {
    let mut o = Options::<f64, 3> {
        operators: Operators::<3>::from_names_by_arity::<BuiltinOpsF64>(&i.unary, &i.binary, &i.ternary).ok().unwrap(),
        ..Default::default()
    };
    macro_rules! set {
        ($get:ident $($n:ident)*) => { $(if let Some(v) = i.opts[stringify!($n)].$get() { o.$n = v as _; })* };
    }
    set!(as_u64 seed niterations populations population_size ncycles_per_iteration batch_size complexity_of_constants complexity_of_variables
         maxsize maxdepth tournament_selection_n optimizer_nrestarts optimizer_iterations optimizer_f_calls_limit topn);
    set!(as_f64 warmup_maxsize_by parsimony adaptive_parsimony_scaling crossover_probability perturbation_factor probability_negate_constant
         tournament_selection_p alpha optimizer_probability fraction_replaced fraction_replaced_hof fraction_replaced_guesses);
    set!(as_bool use_frequency use_frequency_in_tournament skip_mutation_failures annealing should_optimize_constants migration hof_migration
         use_baseline should_simplify batching);
    let w = &i.opts["mutation_weights"];
    macro_rules! weight {
        ($($n:ident)*) => { $(if let Some(v) = w[stringify!($n)].as_f64() { o.mutation_weights.$n = v; })* };
    }
    weight!(mutate_constant mutate_operator mutate_feature swap_operands rotate_tree add_node insert_node delete_node simplify randomize do_nothing
            optimize form_connection break_connection);
    o.progress = false;
    o.loss = symbolic_regression::make_loss::<f64>(i.kind);
    o
}
/// The engine itself over the training rows with the options as written: what a session reports after each cycle.
fn engine(i: &Input, d: &Data, train: &[usize]) -> SearchEngine<f64, BuiltinOpsF64, 3> {
    let x = Array2::from_shape_fn((d.names.len(), train.len()), |(f, r)| d.x[train[r]][f]);
    let y = Array1::from_iter(train.iter().map(|&r| d.y[r]));
    let w = d.wraw.as_ref().map(|w| Array1::from_iter(train.iter().map(|&r| w[r])));
    SearchEngine::new(Dataset::with_weights_and_names(x, y, w, d.names.clone()), engine_options(i))
}
fn reported(e: &SearchEngine<f64, BuiltinOpsF64, 3>) -> Value {
    let m = |m: &PopMember<f64, BuiltinOpsF64, 3>| json!([m.id.0.to_string(), m.complexity, m.loss, m.cost]);
    json!([e.total_cycles(), e.cycles_completed(), e.total_evals(), m(e.best()), e.hall_of_fame().pareto_front().iter().map(m).collect::<Vec<_>>()])
}
fn session_reported(snap: &Value, front: &Value) -> Value {
    let m = |m: &Value| json!([m["id"], m["complexity"], m["loss"], m["cost"]]);
    json!([snap["total_cycles"], snap["cycles_completed"], snap["total_evals"], m(&snap["best"]),
        front.as_array().map(|a| a.iter().map(m).collect::<Vec<_>>())])
}

/// The whole history of a session that is only stepped, one cycle at a time: state after each cycle.
fn plain(i: &Input) -> Result<Vec<(Value, Value)>, (String, String)> {
    let mut s = match open(i) {
        Ok(s) => s,
        Err(e) => return bad("refused", format!("a second session over the same input is refused: {:?}", e.0)),
    };
    s.set_pareto_k(100_000);
    let mut out = vec![(ok(s.step(0), "step")?, ok(s.best_equations(100_000), "best_equations")?)];
    while !s.is_finished() {
        out.push((ok(s.step(1), "step")?, ok(s.best_equations(100_000), "best_equations")?));
        opf_work();
        if out.len() > 10_000 {
            return bad("accounting", "a session that is stepped does not finish");
        }
    }
    Ok(out)
}

/// A session over default options: none given at all, those a page is offered, or none of them set.
fn defaults(c: &Cfg, i: &'static Input) -> Out {
    let text = "a,b,c\n1,2,4\n2,1,3\n0,5,1\n".to_string();
    let offered = ok(symbolic_regression_wasm::default_search_options(), "default_search_options")?;
    let core = ok(symbolic_regression_wasm::default_core_options(), "default_core_options")?;
    // a page reads the properties of the two objects, one laid over the other
    let mut page = serde_json::Map::new();
    for o in [&offered, &core] {
        match o.as_object() {
            Some(o) if !o.contains_key(serde_wasm_bindgen::MAP) => page.extend(o.clone()),
            _ => return bad("defaults", format!("the default options are no object whose properties a page can read: {o}")),
        }
    }
    for n in ["has_headers", "x_columns", "y_column", "weights_column", "validation_fraction", "loss_kind", "huber_delta", "lp_p", "quantile_tau",
        "epsilon_insensitive_eps", "mutation_weights", "seed"].iter().chain(FURTHER[..21].iter().map(|(n, _)| n)) {
        if !page.contains_key(*n) {
            return bad("defaults", format!("the default options do not have {n}"));
        }
    }
    let mut r = c.rng("defaults");
    let given = match r.below(4) {
        0 => JsValue::UNDEFINED,
        1 => JsValue::NULL,
        2 => js(json!({})),
        _ => js(Value::Object(page)),
    };
    let none = |r: &mut crate::rng::R| match r.below(3) {
        0 => JsValue::UNDEFINED,
        1 => JsValue::NULL,
        _ => js(json!([])),
    };
    let (u, t) = (none(&mut r), none(&mut r));
    let seen = format!("{:?} {:?} {:?}", given.0, u.0, t.0);
    let mut s = match WasmSearch::new(text.clone(), given, u, js(["add", "mul"]), t) {
        Ok(s) => s,
        Err(e) => return bad("refused", format!("default options ({seen}) are refused: {:?}", e.0)),
    };
    s.set_pareto_k(100_000);
    let d = Data {
        names: vec!["a".into(), "b".into()],
        x: vec![vec![1.0, 2.0], vec![2.0, 1.0], vec![0.0, 5.0]],
        y: vec![4.0, 3.0, 1.0],
        w: None,
        wraw: None,
        finite: true,
        clean: true,
    };
    let plain = Input {
        text: text.clone(), opts: json!({}), unary: vec![], binary: vec!["add", "mul"], ternary: vec![], want: Ok(d.clone()),
        kind: LossKind::Mse, damage: "none", garbled: None,
    };
    let mut e = engine(&plain, &d, &[0, 1, 2]);
    for n in 0..r.below(2) + 1 {
        let snap = ok(s.step((n > 0) as usize), "step")?;
        if n > 0 {
            e.step(1);
        }
        let f = ok(s.best_equations(100_000), "best_equations")?;
        let (a, b) = (session_reported(&snap, &f), reported(&e));
        if a != b {
            return bad("defaults", format!("with default options ({seen}) the session reports {a} after {n} cycles, the engine {b}"));
        }
    }
    // token lists that are none
    let wrong = *r.pick(&["\"add\"", "[1]", "3", "{}", "[[\"sin\"]]"]);
    let w = JsValue(Some(serde_json::from_str(wrong).unwrap()));
    let (a, b, t) = match r.below(3) {
        0 => (w, js(["add"]), js::<[&str; 0]>([])),
        1 => (js(["sin"]), w, js::<[&str; 0]>([])),
        _ => (js::<[&str; 0]>([]), js(["add"]), w),
    };
    if WasmSearch::new(text, js(&i.opts), a, b, t).is_ok() {
        return bad("accepted", format!("{wrong} was accepted for a list of operators"));
    }
    probe("sessions_with_default_options", 1);
    report::rep().nontrivial = true;
    Ok(())
}

pub fn c25(c: &Cfg) -> Out {
    let i: &'static Input = Box::leak(Box::new(input(c, "")));
    if c.get("show", |_| 0) != 0 {
        sched::quiet(|| println!("{:?}\n{}\n{:?} {:?} {:?} want {:?}", i.text, i.opts, i.unary, i.binary, i.ternary, i.want.as_ref().err()));
    }
    if i.damage != "none" {
        probe(i.damage, 1);
    }
    if i.garbled.is_some() {
        probe("options_garbled", 1);
    }
    report::rep().runs += 1;
    if c.flag("noopts", 2) {
        return defaults(c, i);
    }
    let s = open(i);
    let (s, d) = match (s, &i.want) {
        (Err(_), Err(_)) => {
            probe("inputs_rejected", 1);
            report::rep().nontrivial = true;
            report::log(crate::rng::hash_str(1, &i.text));
            return Ok(());
        }
        (Ok(_), Err(w)) => return bad("accepted", format!("input that is no dataset ({w}, {}) was accepted", i.damage)),
        (Err(e), Ok(_)) => return bad("refused", format!("a dataset ({}) was refused: {:?}", i.damage, e.0)),
        (Ok(s), Ok(d)) => (s, d),
    };
    let split = ok(s.get_split_indices(), "get_split_indices")?;
    let (train, val) = rows_of(&split, d.y.len(), "after the start")?;
    if train.is_empty() {
        return bad("split", format!("all {} rows are validation rows, none is left for training", d.y.len()));
    }
    let vf = i.opts["validation_fraction"].as_f64().unwrap_or(0.0).clamp(0.0, 0.9);
    let share = vf * d.y.len() as f64;
    if (val.len() as f64 - share).abs() > 1.0 || (vf == 0.0 && !val.is_empty()) {
        return bad("split", format!("{} of {} rows for validation, asked for {vf}", val.len(), d.y.len()));
    }
    // the same search, only stepped, possibly in another thread at the same time
    let twin: &'static Slot<Result<Vec<(Value, Value)>, (String, String)>> = Slot::new();
    let mut ids = Vec::new();
    if c.flag("twinthread", 60) {
        ids.push(sched::spawn("twin", move || twin.put(plain(i))));
    }
    if c.flag("other", 40) {
        let o: &'static Input = Box::leak(Box::new(input(c, "b")));
        ids.push(sched::spawn("other", move || {
            if o.want.is_ok() {
                let _ = plain(o);
            }
        }));
    }
    let alone = ids.is_empty() || !c.flag("twinthread", 60);
    let mut se = Session { s, i, d, train, val, k: 250, done: 0, total: None, evals: 0 };
    let mut states: Vec<(u64, Value, Value)> = Vec::new();
    let mut shown: Front = Vec::new();
    let mut old: Front = Vec::new();
    let mut r = c.rng("ops");
    let n_ops = c.range("ops", 1, 40);
    let hist = (|| -> Out {
        for _ in 0..n_ops {
            match r.below(12) {
                0..=3 => {
                    let n = *r.pick(&[0u64, 0, 1, 1, 2, 3, 10, 1_000_000]);
                    let v = ok(se.s.step(n as usize), "step")?;
                    se.snap(&v, n)?;
                    let f = ok(se.s.best_equations(100_000), "best_equations")?;
                    old = std::mem::take(&mut shown);
                    shown = front(&f)?;
                    shown.push(front(&json!([v["best"]]))?.remove(0));
                    states.push((se.done, v, f));
                }
                4..=6 if !shown.is_empty() => {
                    let m = r.pick(&shown).clone();
                    se.evaluate(&m, if r.below(2) == 0 { "train" } else { "val" })?;
                }
                7 if !old.is_empty() => {
                    // an equation that may have been replaced meanwhile: its own values or an error
                    let m = r.pick(&old).clone();
                    if se.s.evaluate_member(m.0.clone(), "train".into()).is_ok() {
                        se.evaluate(&m, "train")?;
                    }
                }
                8 => {
                    let (id, which) = *r.pick(&[("18446744073709551615", "train"), ("-1", "train"), ("x", "val"), ("", "train"), ("0", "test"), ("1e3", "train")]);
                    if let Ok(v) = se.s.evaluate_member(id.into(), which.into()) {
                        if !shown.iter().any(|m| m.0 == id) || which == "test" {
                            return bad("answer", format!("an answer for member {id:?} on {which:?}: {:?}", v.0));
                        }
                    }
                    probe("invalid_requests", 1);
                }
                9 => {
                    let k = *r.pick(&[0usize, 1, 2, 5, 100_000]);
                    let all = front(&ok(se.s.best_equations(100_000), "best_equations")?)?;
                    let few = front(&ok(se.s.best_equations(k), "best_equations")?)?;
                    if few != all[all.len() - all.len().min(k)..] {
                        return bad("front", format!("the {k} best equations are not the end of the front"));
                    }
                }
                10 => {
                    se.k = *r.pick(&[0usize, 1, 2, 250, 100_000]);
                    se.s.set_pareto_k(se.k);
                }
                _ => {
                    let now = ok(se.s.get_split_indices(), "get_split_indices")?;
                    if now != split {
                        return bad("split", "the split changed");
                    }
                }
            }
        }
        let v = ok(se.s.step(usize::MAX), "step")?;
        se.snap(&v, u64::MAX / 2)?;
        states.push((se.done, v, ok(se.s.best_equations(100_000), "best_equations")?));
        Ok(())
    })();
    ids.into_iter().for_each(sched::join);
    hist?;
    if alone {
        twin.put(plain(i));
    }
    let twin = twin.take().unwrap_or_else(|| bad("lost", "no result"))?;
    // and the same as the engine itself reports, given those rows and those options
    let mut e = engine(i, d, &se.train);
    for (n, (snap, f)) in twin.iter().enumerate() {
        if n > 0 {
            e.step(1);
        }
        let (a, b) = (session_reported(snap, f), reported(&e));
        if a != b {
            return bad("options", format!("after {n} cycles the session reports {a}, but a search with the options {} over the training rows {b}", i.opts));
        }
    }
    for (n, snap, f) in &states {
        let Some((ts, tf)) = twin.get(*n as usize) else {
            return bad("accounting", format!("{n} cycles, but stepping ends after {}", twin.len() - 1));
        };
        let mut a = snap.clone();
        let mut b = ts.clone();
        a["pareto_points"] = Value::Null;
        b["pareto_points"] = Value::Null;
        if a != b || f != tf {
            return bad("differs", format!("after {n} cycles the session differs from one that is only stepped: {a} versus {b}"));
        }
        report::log(crate::rng::hash_str(2, &format!("{a}{f}")));
        report::result(crate::rng::hash_str(2, &format!("{a}{f}")));
    }
    report::rep().nontrivial = true;
    probe("session_operations", n_ops as u64);
    Ok(())
}
