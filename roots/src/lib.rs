//! Instantiates the whole public API of diffy, for text and for bytes, so that the analyser
//! sees every reachable body in monomorphic form. Nothing here is ever executed.
#![allow(clippy::all)]
use diffy::*;
use std::borrow::Cow;
use std::io::{self, Write};

/// A writer the analyser knows nothing about.
pub struct Sink(pub usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---- diff
pub fn create_patch_str<'a>(a: &'a str, b: &'a str) -> Patch<'a, str> {
    diffy::create_patch(a, b)
}
pub fn create_patch_u8<'a>(a: &'a [u8], b: &'a [u8]) -> Patch<'a, [u8]> {
    diffy::create_patch_bytes(a, b)
}
pub fn diff_options_new() -> DiffOptions {
    DiffOptions::new()
}
pub fn diff_options_default() -> DiffOptions {
    DiffOptions::default()
}
pub fn set_context_len(o: &mut DiffOptions, n: usize) -> &mut DiffOptions {
    o.set_context_len(n)
}
pub fn set_original_filename<'a>(o: &'a mut DiffOptions, n: Cow<'static, str>) -> &'a mut DiffOptions {
    o.set_original_filename(n)
}
pub fn set_modified_filename<'a>(o: &'a mut DiffOptions, n: Cow<'static, str>) -> &'a mut DiffOptions {
    o.set_modified_filename(n)
}
pub fn diff_options_create_patch<'a>(o: &DiffOptions, a: &'a str, b: &'a str) -> Patch<'a, str> {
    o.create_patch(a, b)
}
pub fn diff_options_create_patch_bytes<'a>(o: &DiffOptions, a: &'a [u8], b: &'a [u8]) -> Patch<'a, [u8]> {
    o.create_patch_bytes(a, b)
}

// ---- apply
pub fn apply_str(a: &str, p: &Patch<'_, str>) -> Result<String, ApplyError> {
    diffy::apply(a, p)
}
pub fn apply_u8(a: &[u8], p: &Patch<'_, [u8]>) -> Result<Vec<u8>, ApplyError> {
    diffy::apply_bytes(a, p)
}
pub fn apply_error_display(e: &ApplyError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}

// ---- merge
pub fn merge_str(o: &str, a: &str, b: &str) -> Result<String, String> {
    diffy::merge(o, a, b)
}
pub fn merge_u8(o: &[u8], a: &[u8], b: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
    diffy::merge_bytes(o, a, b)
}
pub fn merge_options_new() -> MergeOptions {
    MergeOptions::new()
}
pub fn merge_options_default() -> MergeOptions {
    MergeOptions::default()
}
pub fn set_conflict_marker_length(o: &mut MergeOptions, n: usize) -> &mut MergeOptions {
    o.set_conflict_marker_length(n)
}
pub fn set_conflict_style(o: &mut MergeOptions, n: ConflictStyle) -> &mut MergeOptions {
    o.set_conflict_style(n)
}
pub fn merge_options_merge(x: &MergeOptions, o: &str, a: &str, b: &str) -> Result<String, String> {
    x.merge(o, a, b)
}
pub fn merge_options_merge_bytes(x: &MergeOptions, o: &[u8], a: &[u8], b: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
    x.merge_bytes(o, a, b)
}

// ---- parse
pub fn from_str(s: &str) -> Result<Patch<'_, str>, ParsePatchError> {
    Patch::from_str(s)
}
pub fn from_bytes(s: &[u8]) -> Result<Patch<'_, [u8]>, ParsePatchError> {
    Patch::from_bytes(s)
}
pub fn parse_error_display(e: &ParsePatchError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(e, f)
}

// ---- patch
pub fn to_bytes_str(p: &Patch<'_, str>) -> Vec<u8> {
    p.to_bytes()
}
pub fn to_bytes_u8(p: &Patch<'_, [u8]>) -> Vec<u8> {
    p.to_bytes()
}
pub fn original_str<'a>(p: &'a Patch<'a, str>) -> Option<&'a str> {
    p.original()
}
pub fn modified_str<'a>(p: &'a Patch<'a, str>) -> Option<&'a str> {
    p.modified()
}
pub fn original_u8<'a>(p: &'a Patch<'a, [u8]>) -> Option<&'a [u8]> {
    p.original()
}
pub fn modified_u8<'a>(p: &'a Patch<'a, [u8]>) -> Option<&'a [u8]> {
    p.modified()
}
pub fn hunks_str<'a>(p: &'a Patch<'a, str>) -> &'a [Hunk<'a, str>] {
    p.hunks()
}
pub fn hunks_u8<'a>(p: &'a Patch<'a, [u8]>) -> &'a [Hunk<'a, [u8]>] {
    p.hunks()
}
pub fn reverse_str<'a>(p: &'a Patch<'a, str>) -> Patch<'a, str> {
    p.reverse()
}
pub fn reverse_u8<'a>(p: &'a Patch<'a, [u8]>) -> Patch<'a, [u8]> {
    p.reverse()
}
pub fn hunk_old_range(h: &Hunk<'_, str>) -> HunkRange {
    h.old_range()
}
pub fn hunk_new_range(h: &Hunk<'_, str>) -> HunkRange {
    h.new_range()
}
pub fn hunk_function_context<'a>(h: &'a Hunk<'a, str>) -> Option<&'a str> {
    h.function_context()
}
pub fn hunk_lines<'a>(h: &'a Hunk<'a, str>) -> &'a [Line<'a, str>] {
    h.lines()
}
pub fn hunk_old_range_u8(h: &Hunk<'_, [u8]>) -> HunkRange {
    h.old_range()
}
pub fn hunk_new_range_u8(h: &Hunk<'_, [u8]>) -> HunkRange {
    h.new_range()
}
pub fn hunk_function_context_u8<'a>(h: &'a Hunk<'a, [u8]>) -> Option<&'a [u8]> {
    h.function_context()
}
pub fn hunk_lines_u8<'a>(h: &'a Hunk<'a, [u8]>) -> &'a [Line<'a, [u8]>] {
    h.lines()
}
pub fn range_start(h: &HunkRange) -> usize {
    h.start()
}
pub fn range_end(h: &HunkRange) -> usize {
    h.end()
}
pub fn range_range(h: &HunkRange) -> std::ops::Range<usize> {
    h.range()
}
pub fn range_len(h: &HunkRange) -> usize {
    h.len()
}
pub fn range_is_empty(h: &HunkRange) -> bool {
    h.is_empty()
}
pub fn range_display(h: &HunkRange, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(h, f)
}

// ---- format
pub fn patch_display(p: &Patch<'_, str>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(p, f)
}
pub fn formatter_new() -> PatchFormatter {
    PatchFormatter::new()
}
pub fn formatter_default() -> PatchFormatter {
    PatchFormatter::default()
}
pub fn with_color(x: PatchFormatter) -> PatchFormatter {
    x.with_color()
}
pub fn missing_newline_message(x: PatchFormatter, b: bool) -> PatchFormatter {
    x.missing_newline_message(b)
}
pub fn suppress_blank_empty(x: PatchFormatter, b: bool) -> PatchFormatter {
    x.suppress_blank_empty(b)
}
pub fn fmt_patch_display(x: &PatchFormatter, p: &Patch<'_, str>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(&x.fmt_patch(p), f)
}
pub fn write_patch_str(x: &PatchFormatter, p: &Patch<'_, str>, w: &mut Sink) -> io::Result<()> {
    x.write_patch_into(p, w)
}
pub fn write_patch_u8(x: &PatchFormatter, p: &Patch<'_, [u8]>, w: &mut Sink) -> io::Result<()> {
    x.write_patch_into(p, w)
}

// ---- derived
pub fn patch_eq(a: &Patch<'_, str>, b: &Patch<'_, str>) -> bool {
    a == b
}
pub fn patch_clone<'a>(a: &Patch<'a, str>) -> Patch<'a, str> {
    a.clone()
}
pub fn patch_clone_u8<'a>(a: &Patch<'a, [u8]>) -> Patch<'a, [u8]> {
    a.clone()
}

// ---- debug
pub fn debug_patch(p: &Patch<'_, str>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Debug::fmt(p, f)
}
pub fn debug_patch_u8(p: &Patch<'_, [u8]>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Debug::fmt(p, f)
}
pub fn debug_opts(p: &DiffOptions, q: &MergeOptions, r: &PatchFormatter, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Debug::fmt(p, f)?;
    std::fmt::Debug::fmt(q, f)?;
    std::fmt::Debug::fmt(r, f)
}
pub fn debug_errors(p: &ApplyError, q: &ParsePatchError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Debug::fmt(p, f)?;
    std::fmt::Debug::fmt(q, f)
}
