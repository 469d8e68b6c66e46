pub mod checks;
pub mod enums;
pub mod full;
pub mod gen;
pub mod guided;
pub mod model;
pub mod obs;
pub mod raw;
pub mod run;
pub mod tables;
pub mod trace;
