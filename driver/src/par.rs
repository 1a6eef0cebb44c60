use crate::limbs_to_hex;
use crate::tok::{text, unhex};
use io_trait::Io;
use nanvm_lib::{
    common::default::default,
    js::{
        any::Any,
        js_bigint::Sign,
        visitor::{to_visitor, Visitor},
    },
    mem::{global::GLOBAL, manager::Dealloc},
    parser::{
        parser::{parse, Context},
        path,
        shared::{DataType, ModuleCache},
    },
};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::{self, Cursor, Read, Seek, SeekFrom, Write},
    rc::Rc,
    time::Duration,
};

/// Files in memory, under exactly the names they were given.
pub struct Mem {
    pub args: Vec<String>,
    pub files: Rc<RefCell<BTreeMap<String, Vec<u8>>>>,
    pub reads: RefCell<Vec<String>>,
}
#[derive(Debug)]
pub struct MemFile {
    files: Rc<RefCell<BTreeMap<String, Vec<u8>>>>,
    name: Option<String>,
    data: Cursor<Vec<u8>>,
}
pub struct Meta;
pub struct Dir;
#[derive(Clone)]
pub struct Now;
impl std::ops::Sub for Now {
    type Output = Duration;
    fn sub(self, _: Now) -> Duration {
        Duration::default()
    }
}
fn no<T>() -> io::Result<T> {
    Err(io::Error::new(io::ErrorKind::NotFound, "file not found"))
}
impl io_trait::Metadata for Meta {
    fn len(&self) -> u64 {
        0
    }
    fn is_dir(&self) -> bool {
        false
    }
}
impl io_trait::DirEntry for Dir {
    type Metadata = Meta;
    fn path(&self) -> String {
        String::new()
    }
    fn metadata(&self) -> io::Result<Meta> {
        no()
    }
}
impl Read for MemFile {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.data.read(b)
    }
}
impl Write for MemFile {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.data.write(b)?;
        if let Some(f) = &self.name {
            self.files.borrow_mut().insert(f.clone(), self.data.get_ref().clone());
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for MemFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.data.seek(p)
    }
}
impl io_trait::File for MemFile {
    type Metadata = Meta;
    fn metadata(&self) -> io::Result<Meta> {
        no()
    }
}
impl Io for Mem {
    type Args = std::vec::IntoIter<String>;
    type File = MemFile;
    type Stdout = Vec<u8>;
    type Metadata = Meta;
    type DirEntry = Dir;
    type Instant = Now;
    fn args(&self) -> Self::Args {
        self.args.clone().into_iter()
    }
    fn stdout(&self) -> Vec<u8> {
        Vec::new()
    }
    fn metadata(&self, _: &str) -> io::Result<Meta> {
        no()
    }
    fn create_dir(&self, _: &str) -> io::Result<()> {
        Ok(())
    }
    fn create(&self, p: &str) -> io::Result<MemFile> {
        if p.starts_with("ro/") {
            return no();
        }
        self.files.borrow_mut().insert(p.to_string(), Vec::new());
        Ok(MemFile { files: self.files.clone(), name: Some(p.to_string()), data: Cursor::new(Vec::new()) })
    }
    fn open(&self, p: &str) -> io::Result<MemFile> {
        self.reads.borrow_mut().push(p.to_string());
        match self.files.borrow().get(p) {
            Some(d) => Ok(MemFile { files: self.files.clone(), name: None, data: Cursor::new(d.clone()) }),
            None => no(),
        }
    }
    fn now(&self) -> Now {
        Now
    }
    fn read_dir(&self, _: &str) -> io::Result<Vec<Dir>> {
        no()
    }
    fn current_dir(&self) -> io::Result<String> {
        Ok(String::new())
    }
    fn set_current_dir(&self, _: &str) -> io::Result<()> {
        no()
    }
}
fn hexs(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
pub fn units(s: &[u16]) -> String {
    s.iter().map(|u| format!("{u:04x}")).collect()
}
pub fn dump<D: Dealloc>(a: Any<D>) -> String {
    match to_visitor(a) {
        Visitor::Number(n) => format!("N{:016x}", n.to_bits()),
        Visitor::Null => "Z".into(),
        Visitor::Bool(b) => if b { "T" } else { "F" }.into(),
        Visitor::String(s) => format!("S{}", units(s.items())),
        Visitor::Object(o) => format!(
            "{{{}}}",
            o.items().iter().map(|(k, v)| format!("{}:{}", units(k.items()), dump(v.clone()))).collect::<Vec<_>>().join(",")
        ),
        Visitor::Array(a) => format!("[{}]", a.items().iter().map(|v| dump(v.clone())).collect::<Vec<_>>().join(",")),
        Visitor::Bigint(b) => {
            let i = b.items();
            format!("B{}{}", limbs_to_hex(b.sign() == Sign::Negative, i), if i.last() == Some(&0) { "!" } else { "" })
        }
    }
}
pub fn files(s: &str) -> BTreeMap<String, Vec<u8>> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.split_once('=').unwrap()).map(|(k, v)| (text(k), unhex(v))).collect()
}
pub fn named(d: DataType) -> &'static str {
    match d {
        DataType::Json => "json ",
        DataType::Djs => "djs ",
        DataType::Cjs => "cjs ",
        DataType::Mjs => "mjs ",
    }
}
/// `PATH FILES`: the type and the value, or the error; then the modules completed, those in progress, the names read
pub fn serve_parse(a: &[&str]) -> String {
    let io = Mem { args: Vec::new(), files: Rc::new(RefCell::new(files(a[1]))), reads: default() };
    let mut mc: ModuleCache<_> = default();
    let mut c = Context::new(GLOBAL, &io, text(a[0]), &mut mc);
    let r = match parse(&mut c) {
        Ok(r) => format!("{}{}", named(r.data_type), dump(r.any)),
        Err(e) => format!("error {e:?}"),
    };
    let done = mc.complete.iter().map(|(k, v)| format!("{}={}", hexs(k), dump(v.clone()))).collect::<Vec<_>>().join(",");
    let prog = mc.progress.iter().map(|k| hexs(k)).collect::<Vec<_>>().join(",");
    let reads = io.reads.borrow().iter().map(|k| hexs(k)).collect::<Vec<_>>().join(",");
    format!("{r} | {done} | {prog} | {reads}")
}
fn reading(path: &str, files: &BTreeMap<String, Vec<u8>>) -> Result<(String, Any<nanvm_lib::mem::global::Global>), String> {
    let io = Mem { args: Vec::new(), files: Rc::new(RefCell::new(files.clone())), reads: default() };
    let mut mc: ModuleCache<_> = default();
    let mut c = Context::new(GLOBAL, &io, path.to_string(), &mut mc);
    parse(&mut c).map(|r| (format!("{:?}", r.data_type), r.any)).map_err(|e| format!("{e:?}"))
}
/// `INPUT OUTPUT FILES`: the program; how it ended, what it wrote, the value of the input, the value of what it wrote
pub fn serve_run(a: &[&str]) -> String {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let before = files(a[2]);
    let (input, output) = (text(a[0]), text(a[1]));
    let io = Mem { args: vec!["nanvm".to_string(), input.clone(), output.clone()], files: Rc::new(RefCell::new(before.clone())), reads: default() };
    let end = match catch_unwind(AssertUnwindSafe(|| nanvm_lib::app::run(&io))) {
        Ok(Ok(())) => "done".to_string(),
        Ok(Err(e)) => format!("failed:{}", hexs(&e.to_string())),
        Err(_) => "panic".to_string(),
    };
    let after = io.files.borrow().clone();
    let changed: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| hexs(k)).collect();
    let gone = before.keys().any(|k| !after.contains_key(k));
    let (v, wrong) = match reading(&input, &before) {
        Ok(x) => (Some(x.1), "-".to_string()),
        Err(e) => (None, e),
    };
    let want = |f: &dyn Fn(Any<_>) -> Option<String>| v.clone().and_then(|v| catch_unwind(AssertUnwindSafe(|| f(v))).ok().flatten()).map_or("-".into(), |s| format!("t{}", hexs(&s)));
    let json = want(&|v| nanvm_lib::serializer::to_json::to_json(v).ok());
    let cjs = want(&|v| nanvm_lib::serializer::to_djs::to_djs(v, true).ok());
    let mjs = want(&|v| nanvm_lib::serializer::to_djs::to_djs(v, false).ok());
    let got = after.get(&output).map_or("-".into(), |b| format!("t{}", b.iter().map(|b| format!("{b:02x}")).collect::<String>()));
    let back = after.get(&output).and_then(|b| {
        let one = [("x".to_string(), b.clone())].into();
        reading("x", &one).ok().map(|(t, v)| format!("{t} {}", dump(v)))
    });
    format!(
        "{end}|{}|{}|{}|{json}|{cjs}|{mjs}|{got}|{}|{wrong}",
        changed.join(","),
        gone as u8,
        v.map_or("-".into(), dump),
        back.unwrap_or("-".into())
    )
}
/// `norm P`, `concat A B`, `split P`
pub fn serve_path(a: &[&str]) -> String {
    match a[0] {
        "norm" => hexs(&path::normalize(&text(a[1]))),
        "concat" => hexs(&path::concat(&text(a[1]), &text(a[2]))),
        _ => {
            let p = text(a[1]);
            let (d, f) = path::split(&p);
            format!("{} {}", hexs(d), hexs(f))
        }
    }
}
