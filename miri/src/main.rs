#![allow(warnings)]
include!(env!("PGMON_PROGRAM"));
