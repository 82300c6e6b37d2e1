pub mod cfg;
pub mod ctx;
pub mod debug;
pub mod e2e;
pub mod files;
pub mod front;
pub mod gen;
pub mod gfile;
pub mod glue;
pub mod lexers;
pub mod lexspec;
pub mod model;
pub mod names;
pub mod oracle;
pub mod parsers;
pub mod run;
pub mod rx;
pub mod tables;
pub mod templates;
pub mod ub;
pub mod util;
