//! References to other definitions, in the same schema and in others.

use crate::model::*;
use mabo_compiler::resolve::*;
use mabo_parser::{Diagnostic, Schema};
use std::ops::Range;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// A struct or an enum, with that many type parameters.
    Type(usize),
    Alias,
    Const,
}

struct Node {
    name: &'static str,
    path: &'static str,
    types: &'static [(u8, Kind)],
    modules: &'static [Node],
}

const LOCAL: Node = Node {
    name: "main",
    path: "main",
    types: &[(b'A', Kind::Type(0)), (b'B', Kind::Type(1))],
    modules: &[
        Node {
            name: "a",
            path: "main::a",
            types: &[(b'A', Kind::Type(2)), (b'C', Kind::Alias), (b'D', Kind::Const)],
            modules: &[Node { name: "b", path: "main::a::b", types: &[(b'A', Kind::Type(1)), (b'E', Kind::Type(0))], modules: &[] }],
        },
        Node { name: "c", path: "main::c", types: &[(b'C', Kind::Type(0))], modules: &[] },
    ],
};

const EXT: Node = Node {
    name: "ext",
    path: "ext",
    types: &[(b'A', Kind::Type(1)), (b'G', Kind::Type(0)), (b'C', Kind::Alias), (b'D', Kind::Const)],
    modules: &[Node {
        name: "a",
        path: "ext::a",
        types: &[(b'B', Kind::Type(2)), (b'G', Kind::Type(1))],
        modules: &[Node { name: "c", path: "ext::a::c", types: &[(b'E', Kind::Type(0)), (b'C', Kind::Const)], modules: &[] }],
    }],
};

impl Node {
    /// The definitions of the module, with something extra in the one at that path.
    fn write(&self, o: &mut Vec<u8>, extra: &dyn Fn(&Node, &mut Vec<u8>)) {
        for (i, (n, k)) in self.types.iter().enumerate() {
            let n = *n as char;
            let g = |n: usize| ["", "<T>", "<T, U>"][n];
            let f = |n: usize| ["u8", "T", "T, U"][n];
            o.extend_from_slice(
                match k {
                    Kind::Type(k) if i % 2 == 0 => format!("struct {n}{}({})\n", g(*k), f(*k)),
                    Kind::Type(k) => format!("enum {n}{} {{ X({}) }}\n", g(*k), f(*k)),
                    Kind::Alias => format!("type {n} = u8;\n"),
                    Kind::Const => format!("const {n}: u8 = 1;\n"),
                }
                .as_bytes(),
            );
        }
        extra(self, o);
        for m in self.modules {
            o.extend_from_slice(format!("mod {} {{\n", m.name).as_bytes());
            m.write(o, extra);
            o.extend_from_slice(b"}\n");
        }
    }

    fn module(&self, n: &[u8]) -> Option<&Node> {
        self.modules.iter().find(|m| m.name.as_bytes() == n)
    }

    fn walk(&self, path: &[Vec<u8>]) -> Result<&Node, Why> {
        let mut at = self;
        for p in path {
            at = at.module(p).ok_or(Why::Module(p.clone(), at.path))?;
        }
        Ok(at)
    }

    fn find(&self, n: &[u8]) -> Result<Kind, Why> {
        self.types.iter().find(|t| [t.0] == n).map(|t| t.1).ok_or(Why::Definition(n.to_vec(), self.path))
    }

    fn lookup(&self, path: &[Vec<u8>], n: &[u8], args: usize) -> Result<(), Why> {
        match self.walk(path)?.find(n)? {
            Kind::Type(k) if k == args => Ok(()),
            Kind::Type(k) => Err(Why::Count(k, args)),
            Kind::Alias => Err(Why::Kind("type alias")),
            Kind::Const => Err(Why::Kind("constant")),
        }
    }
}

/// Why a reference is wrong.
#[derive(Clone, PartialEq)]
enum Why {
    Schema(Vec<u8>),
    Module(Vec<u8>, &'static str),
    Definition(Vec<u8>, &'static str),
    Count(usize, usize),
    Kind(&'static str),
    Import(Vec<u8>),
}

/// What an import makes available.
enum Target {
    Module(&'static Node),
    Type(Vec<u8>, usize),
}

struct Import {
    segments: Vec<Vec<u8>>,
    element: Option<Vec<u8>>,
}

/// A letter out of `n`, as input.
fn letter(first: u8, n: u8) -> Vec<u8> {
    let c = sym::u8();
    sym::assume((c >= first) & (c < first + n));
    vec![c]
}

impl Import {
    fn any(depth: u8) -> Self {
        let mut segments = vec![match sym::below(3) {
            0 => b"ext".to_vec(),
            1 => b"main".to_vec(),
            _ => b"none".to_vec(),
        }];
        for _ in 0..sym::below(depth + 1) {
            segments.push(letter(b'a', 3));
        }
        let element = sym::bool().then(|| letter(b'A', 8));
        Import { segments, element }
    }

    fn write(&self, o: &mut Vec<u8>) -> Vec<Range<usize>> {
        let mut at = vec![];
        o.extend_from_slice(b"use ");
        for (i, s) in self.segments.iter().chain(&self.element).enumerate() {
            if i > 0 {
                o.extend_from_slice(b"::");
            }
            at.push(o.len()..o.len() + s.len());
            o.extend_from_slice(s);
        }
        o.extend_from_slice(b";\n");
        at
    }

    /// What the import refers to, or which of its parts is wrong and why.
    fn resolve(&self) -> Result<Target, (usize, Why)> {
        let root = match &self.segments[0][..] {
            b"ext" => &EXT,
            b"main" => &LOCAL,
            n => return Err((0, Why::Schema(n.to_vec()))),
        };
        let mut m = root;
        for (i, s) in self.segments.iter().enumerate().skip(1) {
            m = m.module(s).ok_or((i, Why::Module(s.clone(), m.path)))?;
        }
        match &self.element {
            None => Ok(Target::Module(m)),
            Some(e) => match m.find(e).map_err(|w| (self.segments.len(), w))? {
                Kind::Type(k) => Ok(Target::Type(e.clone(), k)),
                Kind::Alias => Err((self.segments.len(), Why::Kind("alias"))),
                Kind::Const => Err((self.segments.len(), Why::Kind("const"))),
            },
        }
    }
}

/// Every location of the diagnostic shows that name in the source it is attached to.
fn labels(d: &dyn Diagnostic, name: &[u8]) -> usize {
    let mut n = 0;
    let source = d.source_code();
    sym::check(source.is_some(), "a diagnostic has a source");
    for l in d.labels().into_iter().flatten() {
        let shown = source.unwrap().read_span(l.inner(), 0, 0);
        sym::check(shown.is_ok(), "a location lies inside of the source it is shown in");
        sym::check(shown.unwrap().data() == name, "a location shows the name in question");
        n += 1;
    }
    for d in d.related().into_iter().flatten() {
        n += labels(d, name);
    }
    n
}

/// The location of the use.
fn used(d: &dyn Diagnostic, at: &Range<usize>) -> bool {
    d.labels().into_iter().flatten().any(|l| l.label() == Some("used here") && l.offset() == at.start && l.len() == at.len())
}

fn text(v: &[u8]) -> &str {
    std::str::from_utf8(v).unwrap()
}

/// Whether the error is the expected one; where it was used has been checked.
fn local(e: &ResolveLocal, w: &Why) -> bool {
    match (e, w) {
        (ResolveLocal::MissingModule(e), Why::Module(n, p)) => e.name.as_bytes() == n && e.path == *p,
        (ResolveLocal::MissingDefinition(e), Why::Definition(n, p)) => e.name.as_bytes() == n && e.path == *p,
        (ResolveLocal::GenericsCount(e), Why::Count(d, u)) => e.definition == *d && e.usage == *u,
        (ResolveLocal::InvalidKind(e), Why::Kind(k)) => e.kind == *k,
        _ => false,
    }
}
fn remote(e: &ResolveRemote, w: &Why) -> bool {
    match (e, w) {
        (ResolveRemote::MissingImport(e), Why::Import(n)) => e.ty.as_bytes() == n,
        (ResolveRemote::MissingModule(e), Why::Module(n, p)) => e.name.as_bytes() == n && e.path == *p,
        (ResolveRemote::MissingDefinition(e), Why::Definition(n, p)) => e.name.as_bytes() == n && e.path == *p,
        (ResolveRemote::GenericsCount(e), Why::Count(d, u)) => e.declaration[0].amount == *d && e.amount == *u,
        (ResolveRemote::InvalidKind(e), Why::Kind(k)) => e.kind == *k && e.declaration[0].kind == *k,
        _ => false,
    }
}
fn import(e: &ResolveImport, w: &Why) -> bool {
    match (e, w) {
        (ResolveImport::MissingSchema(e), Why::Schema(n)) => e.name.as_bytes() == n,
        (ResolveImport::MissingModule(e), Why::Module(n, p)) => e.name.as_bytes() == n && e.path == *p,
        (ResolveImport::MissingDefinition(e), Why::Definition(n, p)) => e.name.as_bytes() == n && e.path == *p,
        (ResolveImport::InvalidKind(e), Why::Kind(k)) => e.kind == *k && e.declaration[0].kind == *k,
        _ => false,
    }
}

/// A schema with imports and a reference, checked against the definitions that exist.
fn references(imports: Vec<Import>, depth: u8, nesting: u8) {
    let path: Vec<_> = (0..sym::below(depth + 1))
        .map(|i| if i == 0 && !imports.is_empty() && sym::bool() { b"ext".to_vec() } else { letter(b'a', 3) })
        .collect();
    let name = letter(b'A', 8);
    let args = sym::below(3) as usize;
    let param = sym::bool().then(|| letter(b'A', 8));
    let target = Ty::Named(path.clone(), name.clone(), vec![Ty::Plain("u8"); args]);
    // Only type arguments and containers around it: the types they belong to exist everywhere.
    let ty = match sym::below(nesting + 1) {
        0 => target,
        1 => one("vec", target),
        2 => Ty::Map(Box::new(Ty::Plain("u8")), Box::new(target)),
        3 => Ty::Tuple(vec![Ty::Plain("u8"), one("option", target)]),
        4 => named("Y", vec![target]),
        _ => named("Y", vec![named("Y", vec![Ty::Array(Box::new(target), 2)])]),
    };
    let home = ["main", "main::a", "main::a::b"][sym::below(3) as usize];

    let mut source = vec![];
    let mut places = vec![];
    for i in &imports {
        places.push(i.write(&mut source));
    }
    let shape = sym::below(3);
    let spot = std::cell::Cell::new(0..0);
    let (p, n) = (&path, &name);
    LOCAL.write(&mut source, &|m, o| {
        if m.path != home {
            return;
        }
        o.extend_from_slice(b"struct Y<T>(T)\n");
        let (kind, open, close) = [("struct Z", "(", ")\n"), ("enum Z", " { V { q: ", " } }\n"), ("type Z", " = ", ";\n")][shape as usize];
        o.extend_from_slice(kind.as_bytes());
        if let Some(p) = &param {
            o.push(b'<');
            o.extend_from_slice(p);
            o.push(b'>');
        }
        o.extend_from_slice(open.as_bytes());
        let mut t = vec![];
        ty.write(&mut t);
        // Where the name is: behind the path, which is behind what surrounds it.
        let mut whole = vec![];
        Ty::Named(p.clone(), n.clone(), vec![]).write(&mut whole);
        let before = surrounding(&ty);
        let s = o.len() + before + whole.len() - 1;
        spot.set(s..s + 1);
        o.extend_from_slice(&t);
        o.extend_from_slice(close.as_bytes());
    });
    let spot = spot.take();
    let mut other = vec![];
    EXT.write(&mut other, &|_, _| ());

    // What is supposed to happen.
    let mut targets = vec![];
    let mut wrong = None;
    for (i, im) in imports.iter().enumerate() {
        match im.resolve() {
            Ok(t) => targets.push(t),
            Err((at, w)) => {
                wrong = Some((places[i][at].clone(), im.segments.iter().chain(&im.element).nth(at).unwrap().clone(), w));
                break;
            }
        }
    }
    let is_param = path.is_empty() && args == 0 && param.as_ref() == Some(&name);
    let home: &Node = match home {
        "main" => &LOCAL,
        "main::a" => &LOCAL.modules[0],
        _ => &LOCAL.modules[0].modules[0],
    };
    let near = if is_param { Ok(()) } else { home.lookup(&path, &name, args) };
    let far = match &near {
        Ok(()) => Ok(()),
        Err(_) => match path.first() {
            Some(first) => match targets.iter().find_map(|t| match t {
                Target::Module(m) if m.name.as_bytes() == first => Some(m),
                _ => None,
            }) {
                Some(m) => m.lookup(&path[1..], &name, args),
                None => Err(Why::Import([&path.join(&b"::"[..])[..], b"::", &name].concat())),
            },
            None => match targets.iter().find_map(|t| match t {
                Target::Type(n, k) if *n == name => Some(*k),
                _ => None,
            }) {
                Some(k) if k == args => Ok(()),
                Some(k) => Err(Why::Count(k, args)),
                None => Err(Why::Import(name.clone())),
            },
        },
    };

    let main = Schema::parse(text(&source), None);
    let ext = Schema::parse(text(&other), None);
    sym::check(main.is_ok() && ext.is_ok(), "the schemas are accepted by the parser");
    let (main, ext) = (main.unwrap(), ext.unwrap());
    let order = [("main", &main), ("ext", &ext)];
    let swapped = [("ext", &ext), ("main", &main)];
    let all: &[_] = if sym::bool() { &order } else { &swapped };
    match mabo_compiler::resolve_schemas(all) {
        Ok(()) => {
            sym::cover("resolved");
            sym::check(wrong.is_none(), "an import of something that does not exist or is no type is rejected");
            sym::check(far.is_ok(), "a reference to something that does not exist or is no type is rejected");
        }
        Err(e) => match (&e.cause, &wrong) {
            (ResolveError::Import(i), Some((at, part, why))) => {
                sym::cover("import");
                sym::check(import(i, why), "the error of an import says what is wrong");
                sym::check(used(&e, at), "the error of an import shows the part that is wrong");
                sym::check(labels(&e, part) > 0, "the error of an import has locations");
            }
            (ResolveError::Local(l), None) => {
                sym::cover("local");
                sym::check(near.as_ref().is_err_and(|w| local(l, w)) && imports.is_empty(), "the error of a local reference says what is wrong");
                sym::check(used(&e, &spot), "the error of a local reference shows the reference");
                sym::check(labels(&e, &name) > 0, "the error of a local reference has locations");
            }
            (ResolveError::Remote(r), None) => {
                sym::cover("remote");
                sym::check(far.as_ref().is_err_and(|w| remote(r, w)), "the error of a remote reference says what is wrong");
                sym::check(used(&e, &spot), "the error of a remote reference shows the reference");
                sym::check(labels(&e, &name) > 0, "the error of a remote reference has locations");
            }
            _ => sym::check(false, "existing types and imports are accepted"),
        },
    }
}

/// How much is in front of the innermost reference.
fn surrounding(t: &Ty) -> usize {
    match t {
        Ty::One(n, t) => n.len() + 1 + surrounding(t),
        Ty::Map(_, t) => "hash_map<u8, ".len() + surrounding(t),
        Ty::Tuple(v) => "(u8, ".len() + surrounding(&v[1]),
        Ty::Array(t, _) => 1 + surrounding(t),
        Ty::Named(_, n, v) if n[..] == b"Y"[..] => "Y<".len() + surrounding(&v[0]),
        _ => 0,
    }
}

sym::harness! {
    fn c05_local() { references(vec![], 2, 1) }
    fn c05_nested() { references(vec![], 0, 5) }
    fn c05_import() { references(vec![Import::any(1)], 1, 0) }
    fn c05_import_deep() {
        let i = Import::any(2);
        sym::assume(i.segments.len() == 3);
        references(vec![i], 1, 0)
    }
    fn t_c05_deep() { references(vec![], 3, 5) }
    fn t_c05_two_imports() { references(vec![Import::any(1), Import::any(0)], 1, 0) }
    fn t_c05_import() { references(vec![Import::any(2)], 2, 1) }
}
