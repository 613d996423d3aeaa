//! Scenario lines, and the tables of a CDF (which ones: the macro `all` of the driver that includes this).
use std::collections::BTreeMap;

pub struct Line { pub kind: String, pub f: BTreeMap<String, i64> }
impl Line {
    pub fn parse(l: &str) -> Line {
        let mut w = l.split(' ');
        let kind = w.next().unwrap().to_string();
        Line { kind, f: w.filter_map(|x| x.split_once('=')).map(|(k, v)| (k.to_string(), v.parse().unwrap())).collect() }
    }
    pub fn g(&self, k: &str) -> i64 { *self.f.get(k).unwrap_or(&0) }
    pub fn n(&self, k: &str) -> usize { self.g(k) as usize }
    pub fn b(&self, k: &str) -> bool { self.g(k) != 0 }
}

/// every table of a nested array
pub trait Tables { fn dims(v: &mut Vec<usize>); fn each(&mut self, f: &mut dyn FnMut(&mut [i32])); }
impl<const N: usize> Tables for [i32; N] { fn dims(v: &mut Vec<usize>) { v.push(N); } fn each(&mut self, f: &mut dyn FnMut(&mut [i32])) { f(&mut self[..]); } }
impl<T: Tables, const N: usize> Tables for [T; N] { fn dims(v: &mut Vec<usize>) { v.push(N); T::dims(v); } fn each(&mut self, f: &mut dyn FnMut(&mut [i32])) { for x in self.iter_mut() { x.each(f); } } }
pub fn dims_of<T: Tables>(_: &T) -> Vec<usize> { let mut v = vec![]; T::dims(&mut v); v }
