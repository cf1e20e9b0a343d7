//! C39, C40: every documented pattern of every rule, with any operands, in any place an
//! expression can be: found there once (C40), rewritten as documented and nothing else (C39).

use crate::lint::{D, config, lint};
use crate::tree::{Tree, expr, tree};
use jarl_core::config::Config;
use std::collections::HashMap;
use std::process::ExitCode;
use std::sync::OnceLock;
use vpkit::proptest::collection::vec;
use vpkit::proptest::prelude::*;
use vpkit::proptest::sample::select as pick;
use vpkit::{Check, Info, Outcome, ensure, ensure_eq};

/// A rule, a documented pattern (with operands `{x}`, and the part reported in `«»` when it is
/// not all), and what the fix turns all of it into.
type Pat = (&'static str, &'static str, Option<&'static str>);

const fn p(rule: &'static str, bad: &'static str, good: &'static str) -> Pat {
    (rule, bad, Some(good))
}
const fn n(rule: &'static str, bad: &'static str) -> Pat {
    (rule, bad, None)
}

const PATTERNS: &[Pat] = &[
    p("all_equal", "isFALSE(all.equal({x}, {y}))", "!isTRUE(all.equal({x}, {y}))"),
    p("all_equal", "if («all.equal({x}, {y})») {z}", "if (isTRUE(all.equal({x}, {y}))) {z}"),
    p("all_equal", "while («all.equal({x}, {y}, tolerance = {w})») {z}", "while (isTRUE(all.equal({x}, {y}, tolerance = {w}))) {z}"),
    p("all_equal", "!all.equal({x}, {y})", "!isTRUE(all.equal({x}, {y}))"),
    p("any_duplicated", "any(duplicated({x}))", "anyDuplicated({x}) > 0"),
    p("any_duplicated", "any(duplicated({x}, fromLast = {y}))", "anyDuplicated({x}, fromLast = {y}) > 0"),
    p("any_duplicated", "duplicated({x}) |> any()", "anyDuplicated({x}) > 0"),
    p("any_is_na", "any(is.na({x}))", "anyNA({x})"),
    p("any_is_na", "NA %in% {x}", "anyNA({x})"),
    p("any_is_na", "is.na({x}) |> any()", "anyNA({x})"),
    p("any_is_na", "{x} |> is.na() |> any()", "anyNA({x})"),
    p("assignment", "«v =» {x}", "v <- {x}"),
    p("assignment", "«v[{y}] =» {x}", "v[{y}] <- {x}"),
    p("assignment", "«v$a =» {x}", "v$a <- {x}"),
    p("assignment", "{x} «-> v»", "v <- {x}"),
    p("class_equals", "if («class({x}) == 'a'») {z}", "if (inherits({x}, 'a')) {z}"),
    p("class_equals", "if («'a' == class({x})») {z} else {y}", "if (inherits({x}, 'a')) {z} else {y}"),
    p("class_equals", "if («class({x}) != \"b\"») {z}", "if (!inherits({x}, \"b\")) {z}"),
    p("class_equals", "while («'a' %in% class({x})») {z}", "while (inherits({x}, 'a')) {z}"),
    p("class_equals", "identical(class({x}), 'a')", "inherits({x}, 'a')"),
    p("class_equals", "identical(\"a\", class({x}))", "inherits({x}, \"a\")"),
    p("coalesce", "if (is.null({x})) {y} else {x}", "{x} %||% {y}"),
    p("coalesce", "if (!is.null({x})) {x} else {y}", "{x} %||% {y}"),
    p("coalesce", "if (is.null({x})) {\n  {y}\n} else {\n  {x}\n}", "{x} %||% {y}"),
    p("comparison_negation", "!({x} > {y})", "{x} <= {y}"),
    p("comparison_negation", "!({x} >= {y})", "{x} < {y}"),
    p("comparison_negation", "!({x} < {y})", "{x} >= {y}"),
    p("comparison_negation", "!({x} <= {y})", "{x} > {y}"),
    p("comparison_negation", "!({x} == {y})", "{x} != {y}"),
    p("comparison_negation", "!({x} != {y})", "{x} == {y}"),
    p("equals_na", "{x} == NA", "is.na({x})"),
    p("equals_na", "NA == {x}", "is.na({x})"),
    p("equals_na", "{x} != NA", "!is.na({x})"),
    p("equals_na", "NA_character_ != {x}", "!is.na({x})"),
    p("equals_na", "{x} == NA_integer_", "is.na({x})"),
    p("equals_na", "{x} %in% NA", "is.na({x})"),
    p("equals_nan", "{x} == NaN", "is.nan({x})"),
    p("equals_nan", "NaN != {x}", "!is.nan({x})"),
    p("equals_nan", "{x} %in% NaN", "is.nan({x})"),
    p("equals_null", "{x} == NULL", "is.null({x})"),
    p("equals_null", "NULL != {x}", "!is.null({x})"),
    p("equals_null", "{x} %in% NULL", "is.null({x})"),
    p("fixed_regex", "grepl('abc', {x})", "grepl('abc', {x}, fixed = TRUE)"),
    p("fixed_regex", "gsub('abc', {y}, {x})", "gsub('abc', {y}, {x}, fixed = TRUE)"),
    p("fixed_regex", "regexpr(\"a b\", {x})", "regexpr(\"a b\", {x}, fixed = TRUE)"),
    p("grepv", "grep({x}, {y}, value = TRUE)", "grepv({x}, {y})"),
    p("grepv", "grep({x}, {y}, ignore.case = {z}, value = TRUE)", "grepv({x}, {y}, ignore.case = {z})"),
    p("is_numeric", "is.numeric({x}) || is.integer({x})", "is.numeric({x})"),
    p("is_numeric", "is.integer({x}) || is.numeric({x})", "is.numeric({x})"),
    p("length_levels", "length(levels({x}))", "nlevels({x})"),
    p("length_levels", "levels({x}) |> length()", "nlevels({x})"),
    p("length_test", "length({x} == {y})", "length({x}) == {y}"),
    p("length_test", "length({x} != {y})", "length({x}) != {y}"),
    p("length_test", "length({x} > {y})", "length({x}) > {y}"),
    p("length_test", "length({x} <= {y})", "length({x}) <= {y}"),
    p("lengths", "sapply({x}, length)", "lengths({x})"),
    p("lengths", "vapply({x}, length, integer(1))", "lengths({x})"),
    p("lengths", "purrr::map_int({x}, length)", "lengths({x})"),
    p("lengths", "map_dbl({x}, length)", "lengths({x})"),
    p("list2df", "do.call(cbind.data.frame, {x})", "list2DF({x})"),
    p("list2df", "do.call('cbind.data.frame', {x})", "list2DF({x})"),
    p("list2df", "do.call(what = cbind.data.frame, args = {x})", "list2DF({x})"),
    p("matrix_apply", "apply({x}, 1, mean)", "rowMeans({x})"),
    p("matrix_apply", "apply({x}, 2, mean)", "colMeans({x})"),
    p("matrix_apply", "apply({x}, 1, sum)", "rowSums({x})"),
    p("matrix_apply", "apply({x}, 2L, sum, na.rm = {y})", "colSums({x}, na.rm = {y})"),
    p("matrix_apply", "apply(X = {x}, FUN = mean, MARGIN = 1)", "rowMeans({x})"),
    p("numeric_leading_zero", ".1", "0.1"),
    p("numeric_leading_zero", ".25e3", "0.25e3"),
    p("outer_negation", "any(!{x})", "!all({x})"),
    p("outer_negation", "all(!{x})", "!any({x})"),
    p("redundant_equals", "{x} == TRUE", "{x}"),
    p("redundant_equals", "TRUE == {x}", "{x}"),
    p("redundant_equals", "{x} != TRUE", "!{x}"),
    p("redundant_equals", "{x} == FALSE", "!{x}"),
    p("redundant_equals", "FALSE == {x}", "!{x}"),
    p("redundant_equals", "{x} != FALSE", "{x}"),
    p("redundant_ifelse", "ifelse({x}, TRUE, FALSE)", "{x}"),
    p("redundant_ifelse", "ifelse({x}, FALSE, TRUE)", "!{x}"),
    p("redundant_ifelse", "dplyr::if_else({x}, TRUE, FALSE)", "{x}"),
    p("redundant_ifelse", "fifelse({x}, FALSE, TRUE)", "!{x}"),
    n("redundant_ifelse", "ifelse({x}, TRUE, TRUE)"),
    n("redundant_ifelse", "ifelse({x}, FALSE, FALSE)"),
    p("repeat", "«while (TRUE)» {x}", "repeat { {x} }"),
    p("repeat", "«while (TRUE)» {\n  {x}\n}", "repeat {\n  {x}\n}"),
    p("sample_int", "sample(1:{x}, {y})", "sample.int({x}, {y})"),
    p("sample_int", "sample(1:{x})", "sample.int({x})"),
    p("sample_int", "sample(1L:{x}, {y}, replace = {z})", "sample.int({x}, {y}, replace = {z})"),
    p("seq", "1:length({x})", "seq_along({x})"),
    p("seq", "1:nrow({x})", "seq_len(nrow({x}))"),
    p("seq", "1L:ncol({x})", "seq_len(ncol({x}))"),
    p("seq", "1:NROW({x})", "seq_len(NROW({x}))"),
    p("seq2", "seq(length({x}))", "seq_along({x})"),
    p("seq2", "seq(nrow({x}))", "seq_len(nrow({x}))"),
    p("seq2", "seq(NCOL({x}))", "seq_len(NCOL({x}))"),
    p("sort", "{x}[order({x})]", "sort({x})"),
    p("sort", "{x}[order({x}, decreasing = {y})]", "sort({x}, decreasing = {y})"),
    p("sort", "{x}[order({x}, na.last = {y})]", "sort({x}, na.last = {y})"),
    p("sort", "{x}[order({x}, method = {y})]", "sort({x}, method = {y})"),
    p("sort", "{x}[order({x}, decreasing = {y}, method = {z})]", "sort({x}, decreasing = {y}, method = {z})"),
    p("sprintf", "sprintf('abc')", "'abc'"),
    p("sprintf", "sprintf(\"100%%\")", "\"100%\""),
    n("sprintf", "sprintf('%s %s', {x})"),
    n("sprintf", "sprintf('%y', {x})"),
    p("string_boundary", "substr({x}, 1, 3) == {y}", "startsWith({x}, {y})"),
    p("string_boundary", "substring({x}, 1L, {z}) != {y}", "!startsWith({x}, {y})"),
    p("string_boundary", "substr({x}, {z}, nchar({x})) == {y}", "endsWith({x}, {y})"),
    p("string_boundary", "substr({x}, {z}, nchar({x})) != {y}", "!endsWith({x}, {y})"),
    p("system_file", "system.file(file.path({x}, {y}), package = {z})", "system.file({x}, {y}, package = {z})"),
    p("system_file", "system.file(file.path('a', 'b'), package = 'foo')", "system.file('a', 'b', package = 'foo')"),
    p("unnecessary_nesting", "if ({x}) {\n  if ({y}) {\n    {z}\n  }\n}", "if ({x} && {y}) {\n    {z}\n  }"),
    p("which_grepl", "which(grepl({x}, {y}))", "grep({x}, {y})"),
    p("which_grepl", "which(grepl({x}, {y}, ignore.case = {z}))", "grep({x}, {y}, ignore.case = {z})"),
    p("any_is_na", "any(is.na(x = {x}))", "anyNA(x = {x})"),
    p("class_equals", "identical(y = 'a', x = class({x}))", "inherits({x}, 'a')"),
    p("redundant_ifelse", "ifelse(test = {x}, yes = TRUE, no = FALSE)", "{x}"),
    p("redundant_ifelse", "ifelse({x}, no = TRUE, yes = FALSE)", "!{x}"),
    p("redundant_ifelse", "if_else(true = TRUE, false = FALSE, condition = {x})", "{x}"),
    p("sample_int", "sample(1:{x}, size = {y}, replace = TRUE)", "sample.int({x}, size = {y}, replace = TRUE)"),
    p("sample_int", "sample(size = {y}, 1:{x})", "sample.int({x}, size = {y})"),
    p("lengths", "sapply(X = {x}, FUN = length)", "lengths({x})"),
    p("lengths", "sapply(FUN = length, {x})", "lengths({x})"),
    p("lengths", "vapply(FUN.VALUE = integer(1), X = {x}, FUN = length)", "lengths({x})"),
    p("list2df", "do.call(args = {x}, what = \"cbind.data.frame\")", "list2DF({x})"),
    p("matrix_apply", "apply({x}, na.rm = {y}, 1, FUN = mean)", "rowMeans({x}, na.rm = {y})"),
    p("grepv", "grep(value = TRUE, {x}, {y})", "grepv({x}, {y})"),
    p("grepv", "grep(pattern = {x}, x = {y}, value = TRUE)", "grepv(pattern = {x}, x = {y})"),
    p("fixed_regex", "gsub(x = {x}, 'abc', {y})", "gsub(x = {x}, 'abc', {y}, fixed = TRUE)"),
    p("fixed_regex", "grepl(x = {x}, pattern = 'abc')", "grepl(x = {x}, pattern = 'abc', fixed = TRUE)"),
    p("fixed_regex", "regmatches({y}, «regexpr('a-b', {x})»)", "regmatches({y}, regexpr('a-b', {x}, fixed = TRUE))"),
    p("system_file", "system.file(package = {z}, file.path({x}))", "system.file(package = {z}, {x})"),
    p("system_file", "system.file(file.path({x}, {y}))", "system.file({x}, {y})"),
    p("sprintf", "sprintf(fmt = 'abc')", "'abc'"),
    p("sprintf", "sprintf(\"a \\\"b\\\" c\")", "\"a \\\"b\\\" c\""),
    p("sprintf", "base::sprintf('é日')", "'é日'"),
    p("expect_length", "expect_equal(expected = {y}, object = length({x}))", "expect_length({x}, {y})"),
    p("expect_length", "testthat::expect_equal({y}, length({x}))", "testthat::expect_length({x}, {y})"),
    p("expect_named", "testthat::expect_identical(expected = {y}, names({x}))", "testthat::expect_named({x}, {y})"),
    p("expect_null", "testthat::expect_true(is.null({x}))", "testthat::expect_null({x})"),
    p("expect_not", "testthat::expect_false(!{x})", "testthat::expect_true({x})"),
    p("expect_true_false", "testthat::expect_equal(expected = FALSE, {x})", "testthat::expect_false({x})"),
    p("expect_type", "testthat::expect_equal('double', typeof({x}))", "testthat::expect_type({x}, 'double')"),
    p("expect_match", "testthat::expect_true(grepl({y}, {x}, fixed = TRUE))", "testthat::expect_match({x}, {y}, fixed = TRUE)"),
    p("expect_no_match", "testthat::expect_false(grepl({y}, {x}, perl = {z}))", "testthat::expect_no_match({x}, {y}, perl = {z})"),
    n("browser", "browser()"),
    n("download_file", "download.file({x})"),
    n("download_file", "download.file({x}, mode = \"w\")"),
    n("duplicated_arguments", "list(a = {x}, a = {y})"),
    n("duplicated_arguments", "f(b = 1, a = {x}, 'a' = {y})"),
    n("duplicated_arguments", "clip(a = {x}, b = {z}, a = {y})"),
    n("duplicated_arguments", "cli::cat_line(a = {x}, a = {y})"),
    n("empty_assignment", "v <- {}"),
    n("empty_assignment", "v <- {\n}"),
    n("empty_assignment", "{} -> v"),
    n("empty_assignment", "{\n\n} -> v"),
    n("for_loop_index", "for («x in x») {y}"),
    n("for_loop_dup_index", "for (x in {x}) {\n  for («x in {y}») {z}\n}"),
    n("if_always_true", "if («TRUE») {x}"),
    n("if_always_true", "if («TRUE || {y}») {x}"),
    n("if_always_true", "if («!FALSE») {x}"),
    n("implicit_assignment", "mean(«v <- {x}»)"),
    n("implicit_assignment", "if (any(«v <- {x}»)) {y}"),
    n("implicit_assignment", "while («v <- {x}») {y}"),
    n("internal_function", "«pkg:::f»({x})"),
    n("true_false_symbol", "T"),
    n("true_false_symbol", "f(«F», {x})"),
    n("undesirable_function", "browser()"),
    n("vector_logic", "if («{x} & {y}») {z}"),
    n("vector_logic", "while («{x} | {y}») {z}"),
    p("expect_length", "expect_equal(length({x}), {y})", "expect_length({x}, {y})"),
    p("expect_length", "expect_identical(length({x}), 2L)", "expect_length({x}, 2L)"),
    p("expect_named", "expect_equal(names({x}), 'a')", "expect_named({x}, 'a')"),
    p("expect_named", "expect_identical(names({x}), {y})", "expect_named({x}, {y})"),
    p("expect_not", "expect_true(!{x})", "expect_false({x})"),
    p("expect_not", "expect_false(!{x})", "expect_true({x})"),
    p("expect_null", "expect_equal({x}, NULL)", "expect_null({x})"),
    p("expect_null", "expect_identical(NULL, {x})", "expect_null({x})"),
    p("expect_null", "expect_true(is.null({x}))", "expect_null({x})"),
    p("expect_s3_class", "expect_equal(class({x}), 'a')", "expect_s3_class({x}, 'a')"),
    p("expect_s3_class", "expect_identical('a', class({x}))", "expect_s3_class({x}, 'a')"),
    p("expect_s3_class", "testthat::expect_equal(class({x}), \"data.frame\")", "testthat::expect_s3_class({x}, \"data.frame\")"),
    p("expect_true_false", "expect_equal({x}, TRUE)", "expect_true({x})"),
    p("expect_true_false", "expect_identical(FALSE, {x})", "expect_false({x})"),
    p("expect_type", "expect_equal(typeof({x}), 'double')", "expect_type({x}, 'double')"),
    p("expect_type", "expect_true(is.character({x}))", "expect_type({x}, \"character\")"),
    p("expect_match", "expect_true(grepl({y}, {x}))", "expect_match({x}, {y})"),
    p("expect_no_match", "expect_false(grepl({y}, {x}))", "expect_no_match({x}, {y})"),
];

/// Near the documented patterns, with more operands: when fixed at all, all of them are kept.
const MORE: &[Pat] = &[
    n("any_duplicated", "any(duplicated({x}), {y})"),
    n("any_duplicated", "duplicated({x}) |> any({y})"),
    n("any_duplicated", "{x} |> duplicated(fromLast = {z}) |> any()"),
    n("any_is_na", "any(is.na({x}), {y})"),
    n("any_is_na", "any({y}, is.na({x}))"),
    n("which_grepl", "which(grepl({x}, {y}), arr.ind = {z})"),
    n("which_grepl", "which(grepl({x}, {y}), {z})"),
    n("which_grepl", "{x} |> grepl(pattern = {y}) |> which()"),
    n("length_levels", "length(levels({x}), {y})"),
    n("length_levels", "levels({x}) |> length(y = {y})"),
    n("all_equal", "isFALSE(all.equal({x}, {y}), {z})"),
    n("all_equal", "if (all.equal({x}, {y}, {z})) {w}"),
    n("redundant_ifelse", "ifelse({x}, TRUE, FALSE, {y})"),
    n("redundant_ifelse", "if_else({x}, TRUE, FALSE, missing = {y})"),
    n("redundant_ifelse", "if_else({x}, TRUE, FALSE, NA, ptype = {y})"),
    n("lengths", "sapply({x}, length, {y})"),
    n("lengths", "sapply({x}, length, simplify = {y})"),
    n("lengths", "sapply({x}, length, USE.NAMES = {y})"),
    n("lengths", "purrr::map_int({x}, length, .progress = {y})"),
    n("sample_int", "sample(1:{x}, {y}, {z}, {w})"),
    n("sample_int", "sample({y}, x = 1:{x})"),
    n("sample_int", "sample(size = 1:{x}, {y})"),
    n("sample_int", "sample({y}, n = 1:{x})"),
    n("system_file", "system.file({x}, file.path({y}), package = {z})"),
    n("system_file", "system.file(file.path({y}), {x}, package = {z})"),
    n("system_file", "system.file(file.path({x}, {y}, fsep = {w}), package = {z})"),
    n("seq", "1:length({x}, {y})"),
    n("seq", "1:nrow({x})[{y}]"),
    n("seq2", "seq(length({x}), {y})"),
    n("seq2", "seq(nrow({x}), by = {y})"),
    n("seq2", "seq(nrow({x}, {y}))"),
    n("sort", "x[order(x, {y})]"),
    n("sort", "x[order(x), {y}]"),
    n("sort", "x[order(x), drop = {y}]"),
    n("sort", "x[order(x, foo = {y})]"),
    n("sort", "x[order(x, decreasing = {y}, method = {z}, na.last = {w})]"),
    n("sprintf", "sprintf('abc', {x})"),
    n("sprintf", "sprintf(fmt = 'abc', {x})"),
    n("class_equals", "identical(class({x}), 'a', {y})"),
    n("class_equals", "identical(class({x}), 'a', num.eq = {y})"),
    n("class_equals", "if (class({x}, {y}) == 'a') {z}"),
    n("grepv", "grep({x}, {y}, value = TRUE, {z}, perl = {w})"),
    n("grepv", "grep({x}, {y}, {z}, {w}, TRUE)"),
    n("matrix_apply", "apply({x}, 1, mean, {y})"),
    n("matrix_apply", "apply({x}, 1, sum, trim = {y})"),
    n("matrix_apply", "apply({x}, 1, sum, simplify = {y})"),
    n("matrix_apply", "apply({x}, 1, sum, {y}, na.rm = {z})"),
    n("list2df", "do.call(cbind.data.frame, {x}, quote = {y})"),
    n("list2df", "do.call(cbind.data.frame, {x}, {y})"),
    n("coalesce", "if (is.null({x}, {z})) {y} else {x}"),
    n("coalesce", "if (is.null({x})) {\n  {y}\n  {z}\n} else {\n  {x}\n}"),
    n("coalesce", "if (!is.null({x})) {\n  {x}\n} else {\n  {z}\n  {y}\n}"),
    n("fixed_regex", "gsub('abc', {x}, {y}, {z}, {w})"),
    n("fixed_regex", "grepl('abc', {x}, perl = {y})"),
    n("outer_negation", "any(!{x}, {y})"),
    n("outer_negation", "any(!{x}, na.rm = {y})"),
    n("outer_negation", "all({y}, !{x})"),
    n("outer_negation", "any(-{x})"),
    n("length_test", "length({x} == {y}, {z})"),
    n("length_test", "length({z}, {x} == {y})"),
    n("is_numeric", "is.numeric({x}) || is.integer({y})"),
    n("is_numeric", "is.numeric({x}) || is.integer({x}) || {y}"),
    n("unnecessary_nesting", "if ({x}) {\n  if ({y}) {\n    {z}\n  } else {w}\n}"),
    n("unnecessary_nesting", "if ({x}) {\n  if ({y}) {z}\n  {w}\n}"),
    n("unnecessary_nesting", "if ({x}) {\n  if ({y}) {z}\n} else {w}"),
    n("repeat", "while (TRUE && {y}) {x}"),
    n("expect_length", "expect_equal(length({x}), {y}, {z})"),
    n("expect_length", "expect_equal(length({x}), {y}, info = {z})"),
    n("expect_length", "expect_equal(length({x}, {z}), {y})"),
    n("expect_named", "expect_equal(names({x}), {y}, info = {z})"),
    n("expect_named", "expect_equal(names({x}, {z}), {y})"),
    n("expect_null", "expect_equal({x}, NULL, info = {z})"),
    n("expect_null", "expect_true(is.null({x}), {y})"),
    n("expect_null", "expect_true(is.null({x}), info = {y})"),
    n("expect_not", "expect_true(!{x}, info = {y})"),
    n("expect_not", "expect_false(!{x}, {y}, {z})"),
    n("expect_true_false", "expect_equal({x}, TRUE, info = {y})"),
    n("expect_true_false", "expect_identical(FALSE, {x}, {y})"),
    n("expect_s3_class", "expect_equal(class({x}), 'a', info = {y})"),
    n("expect_type", "expect_equal(typeof({x}), 'double', {y})"),
    n("expect_type", "expect_true(is.character({x}), info = {y})"),
    n("expect_match", "expect_true(grepl({y}, {x}, {z}), info = {w})"),
    n("expect_match", "expect_true(grepl({y}, {x}, {z}, perl = {w}))"),
    n("expect_no_match", "expect_false(grepl({y}, {x}, ignore.case = {z}), label = {w})"),
];

/// What looks like a documented pattern but means something else: not reported.
const CLEAN: &[Pat] = &[
    n("all_equal", "isTRUE(all.equal({x}, {y}))"),
    n("all_equal", "v <- all.equal({x}, {y})"),
    n("all_equal", "if (isTRUE(all.equal({x}, {y}))) {z}"),
    n("all_equal", "isFALSE(equal({x}, {y}))"),
    n("any_duplicated", "any(!duplicated({x}))"),
    n("any_duplicated", "all(duplicated({x}))"),
    n("any_duplicated", "any(duplicated({x}) & {y})"),
    n("any_duplicated", "sum(duplicated({x})) |> any()"),
    n("any_is_na", "any(!is.na({x}))"),
    n("any_is_na", "all(is.na({x}))"),
    n("any_is_na", "any(is.na({x}) | {y})"),
    n("any_is_na", "'NA' %in% {x}"),
    n("any_is_na", "any(is.nan({x}))"),
    n("assignment", "f(v = {x})"),
    n("browser", "{x}$browser"),
    n("browser", "f(browser = {x})"),
    n("class_equals", "if (class({x}) == class({y})) {z}"),
    n("class_equals", "if (all('a' %in% class({x}))) {z}"),
    n("class_equals", "v <- class({x}) == 'a'"),
    n("class_equals", "if (f(class({x})) == 'a') {z}"),
    n("coalesce", "if (is.null({x})) {y} else k"),
    n("coalesce", "if (is.na({x})) {y} else {x}"),
    n("coalesce", "if (is.null(v)) {y} else v2"),
    n("coalesce", "if (is.null(v)) {y} else v$a"),
    n("coalesce", "if (!is.null(v)) v[{x}] else {y}"),
    n("coalesce", "if (is.null(v$a)) {y} else v"),
    n("coalesce", "if (is.null({x})) {y}"),
    n("comparison_negation", "!({x} & {y})"),
    n("comparison_negation", "!({x} %in% {y})"),
    n("comparison_negation", "!f({x} > {y})"),
    n("comparison_negation", "-({x} > {y})"),
    n("download_file", "download.file({x}, {y}, mode = 'wb')"),
    n("download_file", "download.file({x}, {y}, mode = 'ab')"),
    n("duplicated_arguments", "f(a = {x}, b = {y})"),
    n("duplicated_arguments", "f({x}, {x})"),
    n("duplicated_arguments", "cli_abort(a = {x}, a = {y})"),
    n("duplicated_arguments", "f(a = {x}, a)"),
    n("duplicated_arguments", "f(a = {x}, g(a = {y}))"),
    n("equals_na", "{x} == 'NA'"),
    n("equals_na", "{x} + NA"),
    n("equals_na", "{x} == f(NA)"),
    n("equals_na", "{x} < NA"),
    n("equals_nan", "{x} == 'NaN'"),
    n("equals_nan", "{x} - NaN"),
    n("equals_null", "{x} + NULL"),
    n("equals_null", "{x} == 'NULL'"),
    n("equals_null", "is.null({x})"),
    n("fixed_regex", "gsub('^a', {x}, {y})"),
    n("fixed_regex", "grepl('a.c', {x})"),
    n("fixed_regex", "grepl('a|b', {x})"),
    n("fixed_regex", "sub('a+', {x}, {y})"),
    n("fixed_regex", "gsub('a', {x}, {y}, fixed = TRUE)"),
    n("fixed_regex", "regexpr('a{2}', {x})"),
    n("fixed_regex", "grepl('a$', {x})"),
    n("fixed_regex", "gsub('(a)', {x}, {y})"),
    n("fixed_regex", "regexec('[a]', {x})"),
    n("fixed_regex", "sub('a*', {x}, {y})"),
    n("fixed_regex", "grep('ab?', {x})"),
    n("fixed_regex", "grepl('a\\\\d', {x})"),
    n("fixed_regex", "grepl(f({x}), 'abc')"),
    n("for_loop_index", "for (i in f(k)) {x}"),
    n("for_loop_index", "for (i in k$i) {x}"),
    n("grepv", "grep({x}, {y}, value = FALSE)"),
    n("grepv", "grep({x}, {y}, TRUE)"),
    n("if_always_true", "if (FALSE) {x}"),
    n("if_always_true", "if (TRUE && f({x})) {y}"),
    n("if_always_true", "if (f({x}) || FALSE) {y}"),
    n("if_always_true", "if (0) {x} else {y}"),
    n("implicit_assignment", "f(v = {x})"),
    n("implicit_assignment", "f({\n  v <- {x}\n})"),
    n("internal_function", "pkg::f({x})"),
    n("is_numeric", "is.numeric({x}) && is.integer({x})"),
    n("is_numeric", "is.numeric({x}) || is.integer(other({x}))"),
    n("length_levels", "length(f(levels({x})))"),
    n("length_levels", "nlevels({x})"),
    n("length_test", "length({x}) == {y}"),
    n("length_test", "nchar({x} == {y})"),
    n("lengths", "lapply({x}, length)"),
    n("lengths", "sapply({x}, nchar)"),
    n("list2df", "do.call(cbind, {x})"),
    n("list2df", "do.call(rbind.data.frame, {x})"),
    n("matrix_apply", "apply({x}, 1, prod)"),
    n("matrix_apply", "apply({x}, 1:2, sum)"),
    n("matrix_apply", "lapply({x}, sum)"),
    n("numeric_leading_zero", "{x} + 0.5"),
    n("numeric_leading_zero", "{x} * 10.5"),
    n("numeric_leading_zero", "paste({x}, '.5')"),
    n("outer_negation", "any(-{x})"),
    n("outer_negation", "any(+{x})"),
    n("outer_negation", "all(~{x})"),
    n("outer_negation", "any(!{x} & {y})"),
    n("outer_negation", "any(!{x}, {y})"),
    n("outer_negation", "any(!!{x})"),
    n("outer_negation", "sum(!{x})"),
    n("redundant_equals", "{x} == 'TRUE'"),
    n("redundant_equals", "{x} < TRUE"),
    n("redundant_ifelse", "ifelse({x}, TRUE, TRUE + 1)"),
    n("redundant_ifelse", "ifelse({x}, 1, 0)"),
    n("redundant_ifelse", "ifelse({x}, {y}, FALSE + 1)"),
    n("repeat", "while (FALSE) {x}"),
    n("repeat", "while (TRUE && {y}) {x}"),
    n("sample_int", "sample(2:{x}, {y})"),
    n("sample_int", "sample({x}, {y})"),
    n("sample_int", "{x}$sample(1:{y})"),
    n("seq", "2:length({x})"),
    n("seq", "1:f({x})"),
    n("seq", "1:(length({x}) - 1)"),
    n("seq", "length({x}):1"),
    n("seq2", "seq(2, length({x}))"),
    n("seq2", "seq(f({x}))"),
    n("seq2", "seq_len(length({x}))"),
    n("sort", "v[order(k)]"),
    n("sort", "v[order(v), ]"),
    n("sort", "v[rank(v)]"),
    n("sort", "v[order(v, {x})]"),
    n("sprintf", "sprintf('%s', {x})"),
    n("sprintf", "sprintf('a %d %s', {x}, {y})"),
    n("sprintf", "sprintf(f({x}))"),
    n("string_boundary", "substr({x}, 2, 3) == 'ab'"),
    n("string_boundary", "substr({x}, k, 2) == 'ab'"),
    n("string_boundary", "substr({x}, 1, 2) > 'ab'"),
    n("system_file", "system.file('a', {x}, package = 'b')"),
    n("system_file", "f(file.path({x}, {y}))"),
    n("true_false_symbol", "f(T = {x})"),
    n("true_false_symbol", "{x}$T"),
    n("true_false_symbol", "{x}$F(3)"),
    n("undesirable_function", "{x}$browser()"),
    n("unnecessary_nesting", "if ({x}) {\n  if ({y}) {z}\n  w\n}"),
    n("unnecessary_nesting", "if ({x}) {\n  if ({y}) {z} else w\n}"),
    n("vector_logic", "if (f({x} & {y})) {z}"),
    n("vector_logic", "if ({x} && {y}) {z}"),
    n("vector_logic", "v <- {x} | {y}"),
    n("vector_logic", "if ({x} & '755') {z}"),
    n("vector_logic", "if ('755' | {x}) {z}"),
    n("vector_logic", "if ({x} & as.hexmode({y})) {z}"),
    n("vector_logic", "if (as.octmode({x}) | {y}) {z}"),
    n("vector_logic", "while (as.raw({x}) & {y}) {z}"),
    n("which_grepl", "which(grepl({x}, {y}) | w)"),
    n("which_grepl", "sum(grepl({x}, {y}))"),
    n("which_grepl", "which(regexpr({x}, {y}))"),
    n("expect_length", "expect_equal(nrow({x}), {y})"),
    n("expect_length", "expect_equal(length({x}), length({y}))"),
    n("expect_named", "expect_equal(colnames({x}), {y})"),
    n("expect_named", "expect_equal(names({x}), names({y}))"),
    n("expect_null", "expect_false(is.null({x}))"),
    n("expect_null", "expect_true(!is.null({x}))"),
    n("expect_null", "expect_equal({x}, 'NULL')"),
    n("expect_not", "expect_true(!!{x})"),
    n("expect_not", "expect_equal(!{x}, {y})"),
    n("expect_true_false", "expect_equal({x}, 'TRUE')"),
    n("expect_true_false", "expect_equal({x}, c(TRUE, FALSE))"),
    n("expect_s3_class", "expect_equal(class({x}), f({y}))"),
    n("expect_s3_class", "expect_equal(class({x}), 'list')"),
    n("expect_type", "expect_false(is.integer({x}))"),
    n("expect_type", "expect_true(is.data.frame({x}))"),
    n("expect_match", "expect_equal(grepl({y}, {x}), TRUE)"),
    n("expect_match", "expect_true(grep({y}, {x}))"),
    n("expect_match", "expect_false(grepl({y}, {x}))"),
    n("expect_no_match", "expect_true(grepl({y}, {x}))"),
];

/// Where an expression can be.
const PLACES: &[&str] = &[
    "@@", "v <- @@", "v <<- @@", "@@ -> v", "f(@@)", "f(a, @@)", "f(a = @@)", "f(a = 1, @@, b)", "f(@@, a, b)", "f(\n  a,\n  @@\n)", "pkg::f(@@)", "v$f(@@)", "v$f(a)$g(@@)", "f(a)(@@)",
    "function(p) @@", "function(p = @@) p", "\\(p) @@", "\\(p, q = @@) {\n  p\n}", "function() {\n  @@\n}", "function(...) {\n  a\n  @@\n  b\n}", "f(function(p) @@)", "f(\\(p) {\n  @@\n})", "function() return(@@)",
    "if (a) @@", "if (a) @@ else b", "if (a) b else @@", "if (a) {\n  @@\n} else {\n  b\n}", "if (a) b else if (c) @@ else d", "if (f(@@)) b", "while (f(@@)) b", "for (i in f(@@)) b", "for (i in a) @@", "for (i in a) {\n  @@\n}",
    "while (a) {\n  @@\n}", "repeat {\n  @@\n}", "(@@)", "{\n  @@\n}", "{ a; @@ }", "a\n@@\nb", "@@ + a", "a + @@", "a - @@", "@@ * a", "a / @@", "-@@", "!@@", "@@ == a", "a != @@", "a < @@", "@@ & a", "a & @@", "@@ | a", "a && @@", "@@ || a",
    "@@ %in% a", "a %in% @@", "a %||% @@", "@@:a", "a:@@", "@@^2", "2^@@", "-@@^2", "a ~ @@", "~@@", "a + @@ * b", "a == @@ & b", "!@@ & a", "@@ |> f()", "f(@@) |> g()", "a |> f(@@)", "@@ %>% f()", "a %>% f(@@)",
    "v[@@]", "v[a, @@]", "v[, @@]", "v[@@, ]", "v[[@@]]", "@@[1]", "@@[[1]]", "@@$a", "@@@a", "@@(1)", "f(@@)[1]", "f(@@)[[1]]", "f(@@)$g", "f(@@)$g()", "f(@@)@s", "f(@@)(1)", "f(@@)[1]$b[[2]](3)", "f({\n  @@\n})",
    "switch(a, b = @@)", "tryCatch(@@, error = function(e) NULL)", "tryCatch(a, error = function(e) {\n  @@\n})", "local({\n  @@\n})", "v$w <- @@", "v[f(@@)] <- a", "names(v)[f(@@)] <- a", "a <- b <- @@", "f(g(h(@@)))", "list(a = list(b = @@))", "with(d, @@)", "v <- function() @@", "a := @@",
];

/// Ordinary code that no rule says anything about.
const OPERANDS: &[&str] = &[
    "u", "foo", "x.y", ".z", "é", "`a b`", "3", "2.5", "3L", "'s'", "\"é\"", "r\"(a\"b)\"", "g()", "g(u)", "g(u, 3)", "g(k = u)", "pkg::g(u)", "u$m(3)", "u$a", "u@s", "u[3]", "u[[3]]", "u[3, ]", "pkg::dat", "u$a$b[3]",
    "g(\n  u,\n  3\n)", "(u + 3)", "c(3, 2)", "Inf", "NULL", "function(k) k", "\\(k) k + 3", "if (u) 3 else w", "{\n  u\n}", "{ u }", "repeat break", "for (k in w) k", "while (u) w",
];
/// Ordinary code around other code.
const AROUND: &[&str] = &[
    "{} + {}", "{} - {}", "{} * {}", "{} / {}", "{}^{}", "{}:{}", "{} %% {}", "{} %o% {}", "{} > {}", "{} == {}", "{} != {}", "{} <= {}", "{} & {}", "{} && {}", "{} | {}", "{} || {}", "!{}", "-{}", "+{}", "{} ~ {}", "~{}", "?{}", "{} |> g()", "{} |> g({})", "{} %>% g()",
    "{} <- {}", "{} <<- {}", "g({}, {})", "{}[{}]", "{}[[{}]]", "{}$a", "({})", "g(k = {})", "function(k) {}", "function(k = {}) {}", "if ({}) {} else {}", "if ({}) {}", "{}({})", "!!{}", "{} %||% {}",
];

/// `e` in place of `hole`, in parentheses when it would not be one expression there.
fn put(t: &str, hole: &str, e: &str) -> Option<String> {
    let bare = t.replace(hole, e);
    let grouped = t.replace(hole, &format!("({e})"));
    let g = tree(&grouped)?;
    Some(if tree(&bare).as_ref() == Some(&g) { bare } else { grouped })
}

#[derive(Clone, Debug, vpkit::serde::Serialize, vpkit::serde::Deserialize)]
#[serde(crate = "vpkit::serde")]
struct Case {
    pattern: String,
    good: Option<String>,
    rule: String,
    operands: Vec<String>,
    places: Vec<String>,
}

fn operand() -> BoxedStrategy<String> {
    let leaf = pick(OPERANDS).prop_map(str::to_string);
    let plain = leaf.clone();
    prop_oneof![
        2 => plain,
        5 => leaf.prop_recursive(2, 8, 2, |inner| (pick(AROUND), vec(inner, 3)).prop_map(|(t, xs)| around(t, &xs))),
    ]
    .boxed()
}

fn around(t: &str, xs: &[String]) -> String {
    // Holes one by one, each a unit.
    let mut t = t.to_string();
    for (i, x) in xs.iter().enumerate() {
        if !t.contains("{}") {
            break;
        }
        let one = t.replacen("{}", "HOLE", 1);
        let rest = one.replace("{}", "REST");
        let Some(f) = put(&rest, "HOLE", x) else { return x.clone() };
        t = f.replace("REST", "{}");
        if i == 2 {
            break;
        }
    }
    t.replace("{}", "w")
}

fn case(pats: Vec<Pat>) -> BoxedStrategy<Case> {
    (pick(pats), vec(operand(), 4), prop_oneof![4 => vec(pick(PLACES), 1..2), 3 => vec(pick(PLACES), 2..4)])
        .prop_map(|((rule, bad, good), operands, places)| Case { pattern: bad.into(), good: good.map(str::to_string), rule: rule.into(), operands, places: places.into_iter().map(str::to_string).collect() })
        .boxed()
}

fn configs(rule: &str) -> &'static Config {
    static C: OnceLock<HashMap<String, Config>> = OnceLock::new();
    &C.get_or_init(|| {
        let mut m = HashMap::new();
        for (r, ..) in PATTERNS.iter().chain(MORE).chain(CLEAN) {
            m.entry(r.to_string()).or_insert_with(|| config(r));
        }
        m
    })[rule]
}

const NAMES: [&str; 4] = ["x", "y", "z", "w"];

struct Built {
    text: String,
    /// What is to be reported.
    at: (usize, usize),
    /// What the fix has to result in.
    good: Option<Tree>,
    /// The same place, with nothing to report in it.
    neutral: String,
    /// The documented replacement in the same place.
    compliant: Option<String>,
}

const OPEN: &str = "MARKOPEN";

fn build(c: &Case) -> Option<Built> {
    // Operands.
    let marked = c.pattern.contains('«');
    let (before, inner) = if marked { c.pattern.split_once('«')? } else { ("", c.pattern.as_str()) };
    let (inner, after) = if marked { inner.split_once('»')? } else { (inner, "") };
    let whole = format!("{before}{inner}{after}");
    let mut bad = whole.clone();
    let mut marks = format!("{before}\u{1}{inner}\u{2}{after}");
    let mut good = c.good.clone();
    let mut with = HashMap::new();
    for (i, k) in NAMES.iter().enumerate() {
        let hole = format!("{{{k}}}");
        if !whole.contains(&hole) {
            continue;
        }
        // The others are names meanwhile.
        let plain = |t: &str| NAMES.iter().fold(t.to_string(), |t, o| if o == k { t } else { t.replace(&format!("{{{o}}}"), &format!("HOLE{o}")) });
        let e = &c.operands[i];
        let filled = put(&plain(&whole), &hole, e)?;
        let text = if filled == plain(&whole).replace(&hole, e) { e.clone() } else { format!("({e})") };
        with.insert(format!("HOLE{k}"), expr(e)?);
        bad = bad.replace(&hole, &text);
        marks = marks.replace(&hole, &text);
    }
    let want = match &mut good {
        Some(g) => {
            let t = NAMES.iter().fold(g.clone(), |t, o| t.replace(&format!("{{{o}}}"), &format!("HOLE{o}")));
            Some((expr(&t)?.fill(&with), t))
        }
        None => None,
    };
    // Places, from the inside out.
    let mut place = "@@".to_string();
    for p in &c.places {
        place = put(p, "@@", &place.replace("@@", "PLACE"))?.replace("PLACE", "@@");
    }
    let text = put(&place.replace("@@", "PLACE"), "PLACE", &bad)?;
    let lead = place.split("@@").next()?.len();
    let grouped = text[lead..].starts_with('(') && text == place.replace("@@", &format!("({bad})"));
    let lead = lead + usize::from(grouped);
    let from = lead + marks.find('\u{1}')?;
    let to = lead + marks.find('\u{2}')? - 1;
    let neutral = place.replace("@@", OPEN);
    let ctx = tree(&neutral)?;
    let (good, compliant) = match want {
        Some((t, text)) => {
            // In a call: in other places the replacement can be part of another instance.
            let compliant = format!("f(a, {})", NAMES.iter().enumerate().fold(text, |t, (i, k)| put(&t, &format!("HOLE{k}"), &c.operands[i]).unwrap_or(t)));
            (Some(ctx.fill(&HashMap::from([(OPEN.to_string(), t)]))), Some(compliant))
        }
        None => (None, None),
    };
    Some(Built { text, at: (from, to), good, neutral, compliant })
}

fn of_rule(t: &str, c: &Case) -> Result<Option<Vec<D>>, vpkit::Fail> {
    Ok(lint(t, configs(&c.rule))?.map(|v| v.into_iter().filter(|d| d.rule == c.rule).collect()))
}

/// The case with its diagnostics, unless the place or an operand has something to report.
fn found(c: &Case) -> Result<Option<(Built, Vec<D>)>, vpkit::Fail> {
    let Some(b) = fits(c).then(|| build(c)).flatten() else { return Ok(None) };
    for t in c.operands.iter().chain([&b.neutral]) {
        if of_rule(t, c)?.is_none_or(|v| !v.is_empty()) {
            return Ok(None);
        }
    }
    let Some(v) = of_rule(&b.text, c)? else { return Ok(None) };
    Ok(Some((b, v)))
}

fn c40_one(c: &Case) -> Outcome {
    let Some((b, v)) = found(c)? else {
        return Ok(Info::trivial().label("place or operands have something to report"));
    };
    let at: Vec<_> = v.iter().map(|d| (d.start, d.end)).collect();
    ensure_eq!(at, vec![b.at], format!("found-{}", c.rule), "what {} reports in {:?}, where {:?} (all of {:?}) is to be reported", c.rule, b.text, b.text.get(b.at.0..b.at.1), c.pattern);
    if let Some(t) = &b.compliant
        && let Some(v) = of_rule(t, c)?
    {
        ensure!(v.is_empty(), format!("compliant-{}", c.rule), "{} reports the documented replacement in {t:?}: {v:?}", c.rule);
    }
    Ok(Info::nontrivial().label(c.rule.clone()))
}

fn c39_one(c: &Case) -> Outcome {
    let Some((b, v)) = found(c)? else {
        return Ok(Info::trivial().label("place or operands have something to report"));
    };
    // Whether it is found is C40's.
    let Some(d) = v.iter().find(|d| (d.start, d.end) == b.at) else {
        return Ok(Info::trivial().label("not reported"));
    };
    let Some((s, e, new)) = &d.fix else {
        return Err(vpkit::Fail::new(format!("unfixed-{}", c.rule), format!("{} reports {:?} without the documented fix", c.rule, b.text)));
    };
    let good = b.good.as_ref().unwrap();
    let fixed = format!("{}{new}{}", &b.text[..*s], &b.text[*e..]);
    let got = tree(&fixed);
    // The replacement as documented, but without the parentheses it needs.
    let naive = c.good.as_ref().is_some_and(|g| NAMES.iter().enumerate().fold(g.clone(), |t, (i, k)| t.replace(&format!("{{{k}}}"), &c.operands[i])).replace(['(', ')', ' '], "") == new.replace(['(', ')', ' '], ""));
    ensure!(got.as_ref() == Some(good), format!("{}-{}", if naive { "grouping" } else { "fix" }, c.rule), "{} fixes {:?} to {fixed:?}, which means\n  {}\n  expected:\n  {}", c.rule, b.text, got.map_or("nothing: a syntax error".into(), |t| t.show()), good.show());
    Ok(Info::nontrivial().label(c.rule.clone()))
}

/// Exceptions the documentation or the messages of a rule make.
fn fits(c: &Case) -> bool {
    let used = |k: usize| c.pattern.contains(&format!("{{{}}}", NAMES[k]));
    let xs = || (0..4).filter(|k| used(*k)).map(|k| c.operands[k].as_str());
    let x = c.operands[0].as_str();
    let near = c.places.iter().map(|p| p.as_str()).find(|p| *p != "@@").unwrap_or("");
    match c.rule.as_str() {
        // Not `!!x`.
        "outer_negation" if near.starts_with('!') => false,
        "outer_negation" | "expect_not" => !x.starts_with(['!', '-', '+', '~', '?']),
        "all_equal" if c.pattern.starts_with('!') => !near.starts_with('!'),
        "coalesce" => xs().all(|x| !x.starts_with('{')),
        "equals_null" | "expect_null" => !xs().any(|x| x == "NULL"),
        "repeat" => !x.starts_with('{'),
        "implicit_assignment" => !xs().chain(c.places.iter().map(|p| p.as_str())).any(|x| x.contains("<-") || x.contains("->")),
        "length_test" => !x.contains(['=', '<', '>']),
        // `f(T)`, but not `T(1)`, `T$a` and `a ~ T`.
        "true_false_symbol" => !c.places.iter().any(|p| p.contains('~')) && !["@@$a", "@@@a", "@@(1)"].contains(&near),
        "unnecessary_nesting" => !c.operands[2].starts_with("if"),
        // Bitwise operations.
        "vector_logic" => !xs().any(|x| x.starts_with(['\'', '"', 'r'])),
        _ => true,
    }
}

/// To look at one rule while developing.
fn only(ps: impl Iterator<Item = &'static Pat>) -> Vec<Pat> {
    let r = std::env::var("VP_RULE").unwrap_or_default();
    ps.copied().filter(|p| r.is_empty() || p.0 == r).collect()
}

fn more_one(c: &Case) -> Outcome {
    let Some((b, v)) = found(c)? else {
        return Ok(Info::trivial().label("place or operands have something to report"));
    };
    let mut any = false;
    for d in &v {
        let Some((s, e, new)) = &d.fix else { continue };
        if *s < b.at.0 || *e > b.at.1 {
            continue;
        }
        any = true;
        let fixed = format!("{}{new}{}", &b.text[..*s], &b.text[*e..]);
        let got = tree(&fixed);
        // The last first: the findings are about lost further arguments.
        for (i, k) in NAMES.iter().enumerate().rev() {
            if !c.pattern.contains(&format!("{{{k}}}")) {
                continue;
            }
            let Some(x) = expr(&c.operands[i]) else { continue };
            let kept = got.as_ref().is_some_and(|t| t.count(&x) > 0);
            ensure!(kept, format!("lost-{}-{k}", c.rule), "{} fixes {:?} to {fixed:?}: {:?} is lost", c.rule, b.text, c.operands[i]);
        }
    }
    Ok(Info::when(any).label(if any { "fixed" } else { "not fixed" }))
}

fn clean_one(c: &Case) -> Outcome {
    let Some((b, v)) = found(c)? else {
        return Ok(Info::trivial().label("place or operands have something to report"));
    };
    ensure!(v.is_empty(), format!("clean-{}", c.rule), "{} reports {:?}: {v:?}", c.rule, b.text);
    Ok(Info::nontrivial().label(c.rule.clone()))
}

fn more_case(pats: Vec<Pat>) -> BoxedStrategy<Case> {
    let one = |n: u8| (0..4u8, pick(vec!["op", "op(3)", "op$a", "op + 1", "op[1]", "-op", "'op'"])).prop_map(move |(_, t)| t.replace("op", &format!("op{n}")));
    (case(pats), one(1), one(2), one(3), one(4)).prop_map(|(mut c, x, y, z, w)| {
        c.operands = vec![x, y, z, w];
        c
    })
    .boxed()
}

fn assume(ck: &mut Check) {
    ck.assume("the parser, tree and comment attachment are the stand-ins of /verif/standins, which pass all of jarl's own tests");
    ck.assume("the table of patterns is what the documentation of the rules says");
}

pub fn c39() -> ExitCode {
    let mut ck = Check::new("C39");
    assume(&mut ck);
    let pats: Vec<Pat> = only(PATTERNS.iter().filter(|p| p.2.is_some()));
    let per = |n: u32| n * pats.len() as u32;
    let all = pats.clone();
    ck.prop("patterns", "an instance of a documented pattern of a rule with a fix, with any operands, anywhere an expression can be, fixed: the tree of the result is that of the documented replacement in its place; non-trivial: reported with a fix", per(200), per(6_000), move || case(all.clone()), c39_one);
    let more = only(MORE.iter());
    let n = more.len() as u32;
    if !more.is_empty() {
        ck.prop("more-operands", "calls near the documented patterns, with more arguments: if fixed, no operand is lost; non-trivial: fixed", n.max(1) * 80, n.max(1) * 3_000, move || more_case(more.clone()), more_one);
    }
    ck.finish()
}

pub fn c40() -> ExitCode {
    let mut ck = Check::new("C40");
    assume(&mut ck);
    let pats = only(PATTERNS.iter());
    let per = |n: u32| n * pats.len() as u32;
    let all = pats.clone();
    ck.prop("patterns", "an instance of a documented pattern, with any operands, anywhere an expression can be, is reported once, at its place; the documented replacement is not; non-trivial: place and operands have nothing else to report", per(200), per(6_000), move || case(all.clone()), c40_one);
    let near = only(CLEAN.iter());
    let n = near.len() as u32;
    if !near.is_empty() {
        ck.prop("near", "code that looks like a documented pattern but means something else is not reported, with any operands, anywhere; non-trivial: place and operands have nothing to report", n * 120, n * 4_000, move || case(near.clone()), clean_one);
    }
    let other = altered();
    let n = other.len() as u32;
    if n > 0 {
        ck.prop("altered", "a documented pattern with one of the words that matter (a function, operator, constant, or the name of an argument) replaced by one that means nothing is not reported, with any operands, anywhere; non-trivial: place and operands have nothing to report", n * 40, n * 1_500, move || case(other.clone()), clean_one);
    }
    ck.finish()
}
/// Names, numbers and operators, without strings, brackets and `!`.
fn words(t: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let (mut out, mut i) = (vec![], 0);
    let name = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
    while i < cs.len() {
        let c = cs[i];
        if c == '\'' || c == '"' {
            let end = (i + 1..cs.len()).find(|k| cs[*k] == c && cs[*k - 1] != '\\').unwrap_or(cs.len() - 1);
            i = end + 1;
        } else if name(c) {
            let end = (i..cs.len()).find(|k| !name(cs[*k])).unwrap_or(cs.len());
            out.push(cs[i..end].iter().collect());
            i = end;
        } else if "<>=&|:%+-*/^~?".contains(c) {
            let end = (i..cs.len()).find(|k| !"<>=&|:%+-*/^~?".contains(cs[*k])).unwrap_or(cs.len());
            out.push(cs[i..end].iter().collect());
            i = end;
        } else {
            i += 1;
        }
    }
    out
}

/// The names before a parenthesis.
fn calls(t: &str) -> Vec<String> {
    t.match_indices('(').map(|(i, _)| t[..i].chars().rev().take_while(|c| c.is_alphanumeric() || *c == '.' || *c == '_').collect::<String>().chars().rev().collect()).filter(|n: &String| !n.is_empty()).collect()
}

/// The parts between backticks.
fn code_of(t: &str) -> Vec<&str> {
    t.split('`').skip(1).step_by(2).collect()
}

fn balanced(t: &str) -> bool {
    let mut open = vec![];
    t.chars().all(|c| match c {
        '(' | '[' | '{' => {
            open.push(c);
            true
        }
        ')' => open.pop() == Some('('),
        ']' => open.pop() == Some('['),
        '}' => open.pop() == Some('{'),
        _ => true,
    }) && open.is_empty()
}

fn c47_one(c: &Case) -> Outcome {
    let Some((b, v)) = found(c)? else {
        return Ok(Info::trivial().label("place or operands have something to report"));
    };
    let Some(d) = v.iter().find(|d| (d.start, d.end) == b.at) else {
        return Ok(Info::trivial().label("not reported"));
    };
    let r = &c.rule;
    let help = d.help.as_deref().unwrap_or("");
    let show = || format!("{r} reports {:?} with {:?}, {:?}", &b.text[b.at.0..b.at.1], d.body, d.help);
    ensure!(!d.body.trim().is_empty() && d.help.as_ref().is_none_or(|h| !h.trim().is_empty()), format!("empty-{r}"), "{}", show());
    for t in [d.body.as_str(), help] {
        ensure!(t.matches('`').count() % 2 == 0, format!("quotes-{r}"), "{}", show());
        for x in code_of(t) {
            ensure!(balanced(x), format!("brackets-{r}-{}", x.replace(" ", "")), "`{x}`: {}", show());
        }
        ensure!(!t.contains("  ") && t.trim() == t, format!("spaces-{r}"), "{}", show());
    }
    let holes = ["x", "y", "z", "w"].map(|k| format!("{{{k}}}"));
    let bare = |t: &str| holes.iter().fold(t.replace(['«', '»'], ""), |t, h| t.replace(h.as_str(), " "));
    let bad = words(&bare(&c.pattern));
    let good = c.good.as_deref().map(|g| words(&bare(g)));
    // What is wrong is there, or in what is proposed. Two messages mention a function for comparison.
    let around = words(&b.text);
    let known: Vec<&String> = bad.iter().chain(good.iter().flatten()).chain(&around).collect();
    for x in code_of(&d.body) {
        for n in calls(x) {
            // Strings can be names of functions.
            ensure!(known.contains(&&n) || c.pattern.contains(&n), format!("said-{r}"), "`{n}` isn't there: {}", show());
        }
    }
    if let Some(good) = &good {
        if let Some((_, rest)) = help.split_once("Use `") {
            let x = rest.split('`').next().unwrap_or("");
            for n in calls(x) {
                ensure!(good.contains(&n), format!("proposed-{r}"), "the fix has no `{n}`: {}", show());
            }
        }
        let said = words(&format!("{} {help}", d.body));
        for w in good.iter().filter(|w| !bad.contains(w) && w.parse::<f64>().is_err()) {
            ensure!(said.contains(w), format!("unsaid-{r}"), "the fix brings `{w}`: {}", show());
        }
    }
    Ok(Info::nontrivial().label(r.clone()))
}

pub fn c47() -> ExitCode {
    let mut ck = Check::new("C47");
    assume(&mut ck);
    let pats = only(PATTERNS.iter());
    let n = pats.len() as u32;
    ck.prop("messages", "an instance of a documented pattern, with any operands, anywhere an expression can be: the message names functions that are there, and the help those that the documented replacement brings, in code with closed brackets and quotes; non-trivial: it is reported", n * 60, n * 3_000, move || case(pats.clone()), c47_one);
    ck.finish()
}
/// The pattern with one of its words replaced by another.
fn changed(bad: &str) -> Vec<(String, String)> {
    let cs: Vec<(usize, char)> = bad.char_indices().collect();
    let name = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
    let op = |c: char| "<>=&|:%+-*/^~?!".contains(c);
    let (mut out, mut i) = (vec![], 0);
    while i < cs.len() {
        let (at, c) = cs[i];
        if c == '{' && cs.get(i + 2).is_some_and(|x| x.1 == '}') {
            i += 3;
            continue;
        }
        let class: &dyn Fn(char) -> bool = if name(c) { &name } else if op(c) { &op } else {
            i += 1;
            continue;
        };
        let end = (i..cs.len()).find(|k| !class(cs[*k].1)).unwrap_or(cs.len());
        let to = cs.get(end).map_or(bad.len(), |x| x.0);
        let word = &bad[at..to];
        let new = if !name(c) { "%zz%" } else if c.is_ascii_digit() { "7" } else { "zz" };
        out.push((word.to_string(), format!("{}{new}{}", &bad[..at], &bad[to..])));
        i = end;
    }
    out
}
/// Words of the patterns without which a rule still applies: names of variables, packages and
/// further arguments, and what is in strings.
const INCIDENTAL: &[(&str, &[&str])] = &[
    ("all_equal", &["tolerance", "="]),
    ("if_always_true", &["TRUE"]),
    ("any_duplicated", &["fromLast", "="]),
    ("assignment", &["v", "a"]),
    ("class_equals", &["a", "b", "y", "x"]),
    ("fixed_regex", &["abc", "a", "b", "x", "=", "regmatches", "-"]),
    ("grepv", &["ignore.case", "=", "pattern", "x"]),
    ("lengths", &["integer", "1", "purrr", "::", "=", "FUN.VALUE"]),
    ("matrix_apply", &["="]),
    ("redundant_ifelse", &["dplyr", "::", "="]),
    ("sample_int", &["replace", "=", "size", "TRUE"]),
    ("sprintf", &["abc", "100", "%%", "%", "s", "y", "a", "b", "c", "base", "::", "é日"]),
    ("string_boundary", &["3"]),
    ("system_file", &["package", "=", "a", "b", "foo"]),
    ("which_grepl", &["ignore.case", "="]),
    ("any_is_na", &["x", "="]),
    ("expect_length", &["testthat", "::", "2L"]),
    ("expect_named", &["testthat", "::", "a"]),
    ("expect_null", &["testthat", "::"]),
    ("expect_not", &["testthat", "::"]),
    ("expect_true_false", &["testthat", "::"]),
    ("expect_type", &["testthat", "::", "double"]),
    ("expect_match", &["testthat", "::", "fixed", "=", "TRUE"]),
    ("expect_no_match", &["testthat", "::", "perl", "="]),
    ("download_file", &["mode", "="]),
    ("duplicated_arguments", &["list", "f", "b", "=", "1", "clip", "cat_line", "cli", "::"]),
    ("empty_assignment", &["v"]),
    ("implicit_assignment", &["mean", "v", "any"]),
    ("internal_function", &["pkg", "f"]),
    ("true_false_symbol", &["f"]),
    ("expect_s3_class", &["a", "testthat", "::", "data.frame"]),
];

/// The patterns with one of the words that matter replaced.
fn altered() -> Vec<Pat> {
    static A: OnceLock<Vec<(&'static str, String)>> = OnceLock::new();
    A.get_or_init(|| {
        let incidental = |r: &str, w: &str| INCIDENTAL.iter().any(|(k, ws)| *k == r && ws.contains(&w));
        let mut out: Vec<(&str, String)> = vec![];
        for (r, bad, _) in only(PATTERNS.iter()) {
            for (w, b) in changed(bad) {
                // Parts of the language.
                if !incidental(r, &w) && !["if", "else", "while", "for", "in", "repeat", "function", "return"].contains(&&*w) && expr(&NAMES.iter().fold(b.replace(['«', '»'], ""), |t, k| t.replace(&format!("{{{k}}}"), "u"))).is_some() {
                    out.push((r, b));
                }
            }
        }
        out
    })
    .iter()
    .map(|(r, b)| (*r, b.as_str(), None))
    .collect()
}
