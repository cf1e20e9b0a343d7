//! TextSize, TextRange, Text / TokenText.
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, AddAssign, Bound, Deref, Index, IndexMut, Range, RangeBounds, Sub, SubAssign};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize(u32);
impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
pub trait TextLen: Copy {
    fn text_len(self) -> TextSize;
}
impl TextLen for &'_ str {
    fn text_len(self) -> TextSize {
        TextSize(self.len() as u32)
    }
}
impl TextLen for &'_ String {
    fn text_len(self) -> TextSize {
        TextSize(self.len() as u32)
    }
}
impl TextLen for char {
    fn text_len(self) -> TextSize {
        TextSize(self.len_utf8() as u32)
    }
}
impl TextSize {
    pub const fn new(raw: u32) -> Self {
        TextSize(raw)
    }
    pub fn of<T: TextLen>(text: T) -> TextSize {
        text.text_len()
    }
    pub const fn checked_add(self, rhs: TextSize) -> Option<TextSize> {
        match self.0.checked_add(rhs.0) {
            Some(v) => Some(TextSize(v)),
            None => None,
        }
    }
    pub const fn checked_sub(self, rhs: TextSize) -> Option<TextSize> {
        match self.0.checked_sub(rhs.0) {
            Some(v) => Some(TextSize(v)),
            None => None,
        }
    }
}
impl From<u32> for TextSize {
    fn from(raw: u32) -> Self {
        TextSize(raw)
    }
}
impl From<TextSize> for u32 {
    fn from(v: TextSize) -> u32 {
        v.0
    }
}
impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    fn try_from(v: usize) -> Result<Self, Self::Error> {
        Ok(TextSize(u32::try_from(v)?))
    }
}
impl From<TextSize> for usize {
    fn from(v: TextSize) -> usize {
        v.0 as usize
    }
}
macro_rules! ops {
    ($($op:ident $f:ident $sym:tt $opa:ident $fa:ident;)*) => {$(
        impl $op<TextSize> for TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize(self.0 $sym o.0) } }
        impl $op<&TextSize> for TextSize { type Output = TextSize; fn $f(self, o: &TextSize) -> TextSize { TextSize(self.0 $sym o.0) } }
        impl $op<TextSize> for &TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize(self.0 $sym o.0) } }
        impl $op<&TextSize> for &TextSize { type Output = TextSize; fn $f(self, o: &TextSize) -> TextSize { TextSize(self.0 $sym o.0) } }
        impl $opa<TextSize> for TextSize { fn $fa(&mut self, o: TextSize) { *self = *self $sym o; } }
    )*};
}
ops! { Add add + AddAssign add_assign; Sub sub - SubAssign sub_assign; }
impl std::iter::Sum for TextSize {
    fn sum<I: Iterator<Item = TextSize>>(it: I) -> Self {
        it.fold(TextSize(0), |a, b| a + b)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct TextRange {
    start: TextSize,
    end: TextSize,
}
impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}..{}", self.start.0, self.end.0)
    }
}
impl TextRange {
    #[track_caller]
    pub const fn new(start: TextSize, end: TextSize) -> TextRange {
        assert!(start.0 <= end.0);
        TextRange { start, end }
    }
    pub const fn at(offset: TextSize, len: TextSize) -> TextRange {
        TextRange::new(offset, TextSize(offset.0 + len.0))
    }
    pub const fn empty(offset: TextSize) -> TextRange {
        TextRange { start: offset, end: offset }
    }
    pub const fn up_to(end: TextSize) -> TextRange {
        TextRange { start: TextSize(0), end }
    }
    pub const fn start(self) -> TextSize {
        self.start
    }
    pub const fn end(self) -> TextSize {
        self.end
    }
    pub const fn len(self) -> TextSize {
        TextSize(self.end.0 - self.start.0)
    }
    pub const fn is_empty(self) -> bool {
        self.start.0 == self.end.0
    }
    pub fn contains(self, offset: TextSize) -> bool {
        self.start <= offset && offset < self.end
    }
    pub fn contains_inclusive(self, offset: TextSize) -> bool {
        self.start <= offset && offset <= self.end
    }
    pub fn contains_range(self, other: TextRange) -> bool {
        self.start <= other.start && other.end <= self.end
    }
    pub fn intersect(self, other: TextRange) -> Option<TextRange> {
        let start = self.start.max(other.start);
        let end = self.end.min(other.end);
        (start <= end).then(|| TextRange::new(start, end))
    }
    pub fn cover(self, other: TextRange) -> TextRange {
        TextRange::new(self.start.min(other.start), self.end.max(other.end))
    }
    pub fn cover_offset(self, offset: TextSize) -> TextRange {
        self.cover(TextRange::empty(offset))
    }
    pub fn checked_add(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange::new(self.start.checked_add(offset)?, self.end.checked_add(offset)?))
    }
    pub fn checked_sub(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange::new(self.start.checked_sub(offset)?, self.end.checked_sub(offset)?))
    }
    pub fn add_start(self, amount: TextSize) -> TextRange {
        TextRange::new(self.start + amount, self.end)
    }
    pub fn sub_start(self, amount: TextSize) -> TextRange {
        TextRange::new(self.start - amount, self.end)
    }
    pub fn add_end(self, amount: TextSize) -> TextRange {
        TextRange::new(self.start, self.end + amount)
    }
    pub fn sub_end(self, amount: TextSize) -> TextRange {
        TextRange::new(self.start, self.end - amount)
    }
    pub fn ordering(self, r2: TextRange) -> Ordering {
        if self.end <= r2.start {
            Ordering::Less
        } else if r2.end <= self.start {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
}
impl PartialOrd for TextRange {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for TextRange {
    fn cmp(&self, other: &Self) -> Ordering {
        self.start.cmp(&other.start).then(self.end.cmp(&other.end))
    }
}
impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> {
        Bound::Included(&self.start)
    }
    fn end_bound(&self) -> Bound<&TextSize> {
        Bound::Excluded(&self.end)
    }
}
impl<T: From<TextSize>> From<TextRange> for Range<T> {
    fn from(r: TextRange) -> Self {
        r.start.into()..r.end.into()
    }
}
impl From<Range<u32>> for TextRange {
    fn from(r: Range<u32>) -> Self {
        TextRange::new(r.start.into(), r.end.into())
    }
}
impl From<(u32, u32)> for TextRange {
    fn from((a, b): (u32, u32)) -> Self {
        TextRange::new(a.into(), b.into())
    }
}
impl Index<TextRange> for str {
    type Output = str;
    fn index(&self, r: TextRange) -> &str {
        &self[r.start.0 as usize..r.end.0 as usize]
    }
}
impl Index<TextRange> for String {
    type Output = str;
    fn index(&self, r: TextRange) -> &str {
        &self[r.start.0 as usize..r.end.0 as usize]
    }
}
impl IndexMut<TextRange> for str {
    fn index_mut(&mut self, r: TextRange) -> &mut str {
        &mut self[r.start.0 as usize..r.end.0 as usize]
    }
}
macro_rules! shift {
    ($($op:ident $f:ident $sym:tt $opa:ident $fa:ident;)*) => {$(
        impl $op<TextSize> for TextRange { type Output = TextRange; fn $f(self, o: TextSize) -> TextRange { TextRange::new(self.start $sym o, self.end $sym o) } }
        impl $opa<TextSize> for TextRange { fn $fa(&mut self, o: TextSize) { *self = *self $sym o; } }
    )*};
}
shift! { Add add + AddAssign add_assign; Sub sub - SubAssign sub_assign; }

// The form text-size serializes to: a number, and a pair of numbers.
impl serde::Serialize for TextSize {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for TextSize {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        u32::deserialize(d).map(TextSize)
    }
}
impl serde::Serialize for TextRange {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.start, self.end).serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for TextRange {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (a, b) = <(TextSize, TextSize)>::deserialize(d)?;
        if a > b {
            return Err(serde::de::Error::custom("invalid range"));
        }
        Ok(TextRange::new(a, b))
    }
}

/// A shared piece of the source.
#[derive(Clone)]
pub struct Text {
    source: Arc<str>,
    start: usize,
    end: usize,
}
pub type TokenText = Text;
impl Text {
    pub(crate) fn from_source(source: Arc<str>, start: usize, end: usize) -> Self {
        Text { source, start, end }
    }
    pub fn new_static(text: &'static str) -> Self {
        Text { source: text.into(), start: 0, end: text.len() }
    }
    pub fn text(&self) -> &str {
        &self.source[self.start..self.end]
    }
    pub fn len(&self) -> TextSize {
        TextSize::of(self.text())
    }
    pub fn is_empty(&self) -> bool {
        self.start == self.end
    }
    pub fn range(&self) -> TextRange {
        TextRange::new((self.start as u32).into(), (self.end as u32).into())
    }
    pub fn slice(&self, range: TextRange) -> Text {
        let (a, b) = (usize::from(range.start()), usize::from(range.end()));
        let _ = &self.text()[a..b];
        Text { source: self.source.clone(), start: self.start + a, end: self.start + b }
    }
}
impl Deref for Text {
    type Target = str;
    fn deref(&self) -> &str {
        self.text()
    }
}
impl AsRef<str> for Text {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
impl Borrow<str> for Text {
    fn borrow(&self) -> &str {
        self.text()
    }
}
impl From<String> for Text {
    fn from(s: String) -> Self {
        let end = s.len();
        Text { source: s.into(), start: 0, end }
    }
}
impl From<&str> for Text {
    fn from(s: &str) -> Self {
        s.to_string().into()
    }
}
impl From<Text> for String {
    fn from(t: Text) -> String {
        t.text().to_string()
    }
}
impl fmt::Display for Text {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad(self.text())
    }
}
impl fmt::Debug for Text {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.text())
    }
}
impl Eq for Text {}
impl PartialEq for Text {
    fn eq(&self, o: &Text) -> bool {
        self.text() == o.text()
    }
}
impl PartialEq<str> for Text {
    fn eq(&self, o: &str) -> bool {
        self.text() == o
    }
}
impl PartialEq<&str> for Text {
    fn eq(&self, o: &&str) -> bool {
        self.text() == *o
    }
}
impl PartialEq<String> for Text {
    fn eq(&self, o: &String) -> bool {
        self.text() == o
    }
}
impl PartialEq<Text> for str {
    fn eq(&self, o: &Text) -> bool {
        self == o.text()
    }
}
impl PartialEq<Text> for &str {
    fn eq(&self, o: &Text) -> bool {
        *self == o.text()
    }
}
impl PartialEq<Text> for String {
    fn eq(&self, o: &Text) -> bool {
        self == o.text()
    }
}
impl PartialOrd for Text {
    fn partial_cmp(&self, o: &Text) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Text {
    fn cmp(&self, o: &Text) -> Ordering {
        self.text().cmp(o.text())
    }
}
impl std::hash::Hash for Text {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.text().hash(h)
    }
}
