#![allow(dead_code, unused_imports)]
