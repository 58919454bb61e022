//! The calls of the library that the simulator makes, one function each. This crate is compiled with the
//! same instrumentation as the library, so that generic and inlined library code is instrumented too.
#![allow(clippy::missing_errors_doc)]
use std::fmt::{self, Display};
use unicode_intervals::{
    as_general_categories, Codepoints, Error, Interval, IntervalQuery, IntervalSet, UnicodeCategory, UnicodeCategorySet,
    UnicodeVersion,
};

#[inline(never)]
pub fn intervals(q: &IntervalQuery<'_>) -> Result<Vec<Interval>, Error> {
    q.intervals()
}
#[inline(never)]
pub fn interval_set(q: &IntervalQuery<'_>) -> Result<IntervalSet, Error> {
    q.interval_set()
}
#[inline(never)]
pub fn set_len(s: &IntervalSet) -> usize {
    s.len()
}
#[inline(never)]
pub fn set_is_empty(s: &IntervalSet) -> bool {
    s.is_empty()
}
#[inline(never)]
pub fn set_contains(s: &IntervalSet, cp: u32) -> bool {
    s.contains(cp)
}
#[inline(never)]
pub fn set_contains_char(s: &IntervalSet, c: char) -> bool {
    s.contains(c)
}
#[inline(never)]
pub fn set_at(s: &IntervalSet, i: u32) -> Option<u32> {
    s.codepoint_at(i)
}
#[inline(never)]
pub fn set_index_of(s: &IntervalSet, cp: u32) -> Option<u32> {
    s.index_of(cp)
}
#[inline(never)]
pub fn set_index_of_char(s: &IntervalSet, c: char) -> Option<u32> {
    s.index_of(c)
}
#[inline(never)]
pub fn set_index_above(s: &IntervalSet, cp: u32) -> u32 {
    s.index_above(cp)
}
#[inline(never)]
pub fn set_index_above_char(s: &IntervalSet, c: char) -> u32 {
    s.index_above(c)
}
#[inline(never)]
pub fn set_clone(s: &IntervalSet) -> IntervalSet {
    s.clone()
}
#[inline(never)]
pub fn set_drop(s: IntervalSet) {
    drop(s);
}
#[inline(never)]
pub fn set_iter(s: &IntervalSet) -> Codepoints<'_> {
    s.iter()
}
#[inline(never)]
pub fn set_into_iter(s: &IntervalSet) -> Codepoints<'_> {
    s.into_iter()
}

// ---- iterators
#[inline(never)]
pub fn it_next(c: &mut Codepoints<'_>) -> Option<u32> {
    c.next()
}
#[inline(never)]
pub fn it_back(c: &mut Codepoints<'_>) -> Option<u32> {
    c.next_back()
}
#[inline(never)]
pub fn it_nth(c: &mut Codepoints<'_>, n: usize) -> Option<u32> {
    c.nth(n)
}
#[inline(never)]
pub fn it_nth_back(c: &mut Codepoints<'_>, n: usize) -> Option<u32> {
    c.nth_back(n)
}
#[inline(never)]
pub fn it_clone<'a>(c: &Codepoints<'a>) -> Codepoints<'a> {
    c.clone()
}
#[inline(never)]
pub fn it_hint(c: &Codepoints<'_>) -> (usize, Option<usize>) {
    c.size_hint()
}
#[inline(never)]
pub fn it_count(c: Codepoints<'_>) -> usize {
    c.count()
}
#[inline(never)]
pub fn it_last(c: Codepoints<'_>) -> Option<u32> {
    c.last()
}
#[inline(never)]
pub fn it_min_max(c: Codepoints<'_>) -> (Option<u32>, Option<u32>) {
    (c.clone().min(), c.max())
}
#[inline(never)]
pub fn it_take_each(c: &mut Codepoints<'_>, n: usize, f: &mut dyn FnMut(u32)) {
    c.by_ref().take(n).for_each(f);
}
#[inline(never)]
pub fn it_try_each(c: &mut Codepoints<'_>, f: &mut dyn FnMut(u32) -> Option<()>) -> Option<()> {
    c.try_for_each(f)
}
#[inline(never)]
pub fn it_try_each_back(c: &mut Codepoints<'_>, f: &mut dyn FnMut(u32) -> Option<()>) -> Option<()> {
    c.try_rfold((), |(), x| f(x))
}
#[inline(never)]
pub fn it_rev_take_each(c: &mut Codepoints<'_>, n: usize, f: &mut dyn FnMut(u32)) {
    c.by_ref().rev().take(n).for_each(f);
}
#[inline(never)]
pub fn it_find(c: &mut Codepoints<'_>, f: &mut dyn FnMut(u32) -> bool) -> Option<u32> {
    c.find(|x| f(*x))
}
#[inline(never)]
pub fn it_rfind(c: &mut Codepoints<'_>, f: &mut dyn FnMut(u32) -> bool) -> Option<u32> {
    c.rfind(|x| f(*x))
}
#[inline(never)]
pub fn it_fold(c: Codepoints<'_>, f: &mut dyn FnMut(u32)) {
    c.fold((), |(), x| f(x));
}
#[inline(never)]
pub fn it_rfold(c: Codepoints<'_>, f: &mut dyn FnMut(u32)) {
    c.rfold((), |(), x| f(x));
}
#[inline(never)]
pub fn it_step(c: Codepoints<'_>, step: usize, n: usize, f: &mut dyn FnMut(u32)) {
    c.step_by(step).take(n).for_each(f);
}
#[inline(never)]
pub fn it_skip(c: Codepoints<'_>, skip: usize, n: usize, f: &mut dyn FnMut(u32)) {
    c.skip(skip).take(n).for_each(f);
}

// ---- category expansion
#[inline(never)]
pub fn expand_str<'s>(it: &mut dyn Iterator<Item = &'s str>, v: UnicodeVersion) -> Result<Vec<UnicodeCategory>, Error> {
    as_general_categories(it, v)
}
#[inline(never)]
pub fn expand_string(it: &mut dyn Iterator<Item = String>, v: UnicodeVersion) -> Result<Vec<UnicodeCategory>, Error> {
    as_general_categories(it, v)
}
/// An entry whose text is handed out by code of the caller.
pub struct Entry<'a>(pub &'a dyn Fn() -> &'a str, pub Option<fn()>);
impl Drop for Entry<'_> {
    fn drop(&mut self) {
        if let Some(f) = self.1 {
            f();
        }
    }
}
impl AsRef<str> for Entry<'_> {
    fn as_ref(&self) -> &str {
        (self.0)()
    }
}
#[inline(never)]
pub fn expand_entry<'s>(it: &mut dyn Iterator<Item = Entry<'s>>, v: UnicodeVersion) -> Result<Vec<UnicodeCategory>, Error> {
    as_general_categories(it, v)
}
#[inline(never)]
pub fn expand_slice(s: &[&str], v: UnicodeVersion) -> Result<Vec<UnicodeCategory>, Error> {
    as_general_categories(s, v)
}

// ---- rendering
#[inline(never)]
pub fn render(item: &dyn Display, sink: &mut dyn fmt::Write) -> fmt::Result {
    write!(sink, "{item}")
}
#[inline(never)]
pub fn render_string(item: &dyn Display) -> String {
    item.to_string()
}

// ---- versions and categories
#[inline(never)]
pub fn normalized(v: UnicodeVersion) -> [UnicodeCategory; 30] {
    v.normalized_categories()
}
#[inline(never)]
pub fn intervals_for(v: UnicodeVersion, c: UnicodeCategory) -> &'static [Interval] {
    v.intervals_for(c)
}
#[inline(never)]
pub fn table(v: UnicodeVersion) -> &'static [&'static [Interval]] {
    v.table()
}
#[inline(never)]
pub fn parse_version(s: &str) -> Result<UnicodeVersion, Error> {
    s.parse()
}
#[inline(never)]
pub fn parse_category(s: &str) -> Result<UnicodeCategory, Error> {
    s.parse()
}
#[inline(never)]
pub fn version_str(v: UnicodeVersion) -> &'static str {
    v.as_str()
}
#[inline(never)]
pub fn category_str(c: UnicodeCategory) -> &'static str {
    c.as_str()
}
#[inline(never)]
pub fn latest() -> UnicodeVersion {
    UnicodeVersion::latest()
}
#[inline(never)]
pub fn all_versions() -> [UnicodeVersion; 11] {
    UnicodeVersion::ALL
}
#[inline(never)]
pub fn default_query() -> IntervalQuery<'static> {
    unicode_intervals::query()
}
#[inline(never)]
pub fn version_query(v: UnicodeVersion) -> IntervalQuery<'static> {
    v.query()
}

// ---- category sets
#[inline(never)]
pub fn cs_new() -> UnicodeCategorySet {
    UnicodeCategorySet::new()
}
#[inline(never)]
pub fn cs_default() -> UnicodeCategorySet {
    UnicodeCategorySet::default()
}
#[inline(never)]
pub fn cs_all() -> UnicodeCategorySet {
    UnicodeCategorySet::all()
}
#[inline(never)]
pub fn cs_add(s: &mut UnicodeCategorySet, c: UnicodeCategory) {
    s.add(c);
}
#[inline(never)]
pub fn cs_remove(s: &mut UnicodeCategorySet, c: UnicodeCategory) {
    s.remove(c);
}
#[inline(never)]
pub fn cs_or_set(a: UnicodeCategorySet, b: UnicodeCategorySet) -> UnicodeCategorySet {
    a | b
}
#[inline(never)]
pub fn cs_or_cat(a: UnicodeCategorySet, b: UnicodeCategory) -> UnicodeCategorySet {
    a | b
}
#[inline(never)]
pub fn cs_cat_or(a: UnicodeCategory, b: UnicodeCategorySet) -> UnicodeCategorySet {
    a | b
}
#[inline(never)]
pub fn cs_cat_or_cat(a: UnicodeCategory, b: UnicodeCategory) -> UnicodeCategorySet {
    a | b
}
#[inline(never)]
pub fn cs_assign_set(a: &mut UnicodeCategorySet, b: UnicodeCategorySet) {
    *a |= b;
}
#[inline(never)]
pub fn cs_assign_cat(a: &mut UnicodeCategorySet, b: UnicodeCategory) {
    *a |= b;
}
#[inline(never)]
pub fn cs_from(c: UnicodeCategory) -> UnicodeCategorySet {
    c.into()
}
#[inline(never)]
pub fn cs_class(i: usize) -> UnicodeCategorySet {
    [
        UnicodeCategory::L,
        UnicodeCategory::M,
        UnicodeCategory::N,
        UnicodeCategory::P,
        UnicodeCategory::S,
        UnicodeCategory::Z,
        UnicodeCategory::C,
    ][i]
}
#[inline(never)]
pub fn cs_contains(s: UnicodeCategorySet, c: UnicodeCategory) -> bool {
    s.contains(c)
}
#[inline(never)]
pub fn cs_len(s: UnicodeCategorySet) -> usize {
    s.len()
}
#[inline(never)]
pub fn cs_is_empty(s: UnicodeCategorySet) -> bool {
    s.is_empty()
}
#[inline(never)]
pub fn cs_value(s: UnicodeCategorySet) -> u32 {
    s.into_value()
}
#[inline(never)]
pub fn cs_iter(s: UnicodeCategorySet, f: &mut dyn FnMut(UnicodeCategory, usize)) {
    let mut it = s.iter();
    loop {
        let left = it.len();
        match it.next() {
            Some(c) => f(c, left),
            None => break,
        }
    }
}
