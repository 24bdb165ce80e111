#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unused_parens, unused_must_use, non_snake_case)]
use vstd::prelude::*;
