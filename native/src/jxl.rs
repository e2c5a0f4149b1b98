use crate::CaseFn; pub fn cases(_p:&str,_v:&mut Vec<(&'static str,CaseFn)>){}
