mod rt;
mod ast;
mod h_total;
mod h_num;
mod h_expr;
mod h_flow;
mod h_str;
mod h_here;
mod h_re;
mod h_name;
mod h_coll;
mod h_param;
mod h_call;
mod h_def;
mod h_scope;
mod h_err;
mod h_meta;
mod h_work;
mod h_inv;
#[global_allocator]
static A: h_work::Counting = h_work::Counting;

type H = extern "C-unwind" fn(u64);
macro_rules! table {
    ($($m:ident: $($f:ident)*;)*) => {
        static TABLE: &[(&str, H)] = &[$($((stringify!($f), $m::$f),)*)*];
    };
}
table! {
    h_total: h_total h_total_ctx h_total_mb h_total_mix;
    h_num: h_dec h_dec_edge h_radix h_radix_edge h_num_bad h_float h_imag h_num_dot h_num_long;
    h_expr: h_ops h_ops_lv h_ops_one h_ops_paren h_ops_after h_ternary h_unary h_op_command h_assign h_assign_chain h_assign_op h_massign h_massign_ctx;
    h_str: h_dq h_dq_num h_dq_seq h_dq_bad h_char h_adjacent h_sq h_sq_sym h_pct_delim h_pct_bad h_pct_nest h_words h_interp_nest h_interp h_interp_adjacent h_interp_ctx;
    h_here: h_here h_here_ctx h_here_two h_here_seq h_here_not h_here_cut;
    h_re: h_re h_re_opt h_re_free h_re_interp h_re_free_interp h_re_ctx h_re_div h_re_open;
    h_name: h_def_name h_defs_name h_mcall_name h_sym_name h_sym_bad h_alias h_ident h_reserved h_reserved_name h_pseudo;
    h_coll: h_array h_hash h_range h_index h_coll_bad h_var h_var_rw h_var_bad;
    h_param: h_param h_param_dup h_param_bad h_param_none h_numbered h_numbered_names h_numbered_call;
    h_call: h_call h_call_none h_call_block h_call_bad h_call_forward h_chain h_chain_assign h_chain_bad;
    h_err: h_prefix h_wrong h_report h_report_eof h_srcinfo h_srcinfo_long h_srcinfo_path h_loc_merge h_locs h_locs_leaf h_layout h_layout_stmts;
    h_scope: h_scope h_scope_bind h_extern h_binding_seq h_collector;
    h_def: h_class h_sclass h_def_body h_dynamic h_class_bad h_const;
    h_meta: h_embed h_embed_tok h_wrong_stays h_wrong_stays_tok h_helpers;
    h_inv: h_formed_gen h_formed h_formed_tok h_formed_form h_entries h_entries_tok h_entries_form h_rename;
    h_work: h_work_nest h_work_pair h_work_cut h_work_row;
    h_flow: h_loop_head h_if h_while h_for h_case h_modifier h_jump h_nest h_begin h_begin_bad h_begin_expr;
}

#[cfg(not(feature = "native"))]
fn main() {
    let k = std::env::args().count();
    let (_, f) = TABLE[k % TABLE.len()];
    f(k as u64)
}

#[cfg(feature = "native")]
fn main() {
    use rt::ext::*;
    use std::io::BufRead;
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    // `show`: prints the tree of every line (\n, \t escaped)
    if std::env::args().nth(1).as_deref() == Some("show") {
        for line in stdin.lock().lines() {
            let t = line.unwrap().replace("\\n", "\n").replace("\\t", "\t");
            let r = std::panic::catch_unwind(|| match ruruby_parse::Parser::parse_program(t.clone(), "t.rb") {
                Ok(r) => {
                    let mut o = ast::dump(&r.node);
                    ast::lvars(&mut o, &r.lvar_collector);
                    o.retain(|c| *c >= 32);
                    String::from_utf8_lossy(&o).to_string()
                }
                Err(e) => format!("ERR {:?} {:?}", e.kind, e.loc),
            });
            println!("{:?} => {}", t, r.unwrap_or("PANIC".to_string()));
        }
        return;
    }
    // `locs`: the text of every node of every line
    if std::env::args().nth(1).as_deref() == Some("locs") {
        for line in stdin.lock().lines() {
            let t = line.unwrap().replace("\\n", "\n").replace("\\t", "\t");
            println!("{:?}", t);
            if let Ok(r) = ruruby_parse::Parser::parse_program(t.clone(), "t.rb") {
                ast::each(&r.node, &mut |n| {
                    let mut o = ast::dump(n);
                    o.retain(|c| *c >= 32);
                    println!("    {:?} {:?} {}", n.loc, t.get(n.loc.0..(n.loc.1 + 1).min(t.len())), String::from_utf8_lossy(&o));
                });
            }
        }
        return;
    }
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split_whitespace().collect();
        if p.len() < 3 {
            continue;
        }
        let f = TABLE.iter().find(|x| x.0 == p[0]).expect("harness").1;
        let arg: u64 = p[1].parse().unwrap();
        let ins: Vec<u64> = if p[2] == "-" { vec![] } else { p[2].split(',').map(|x| x.parse().unwrap()).collect() };
        ST.with(|s| *s.borrow_mut() = St { ins, ..Default::default() });
        let r = std::panic::catch_unwind(|| f(arg));
        let st = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
        if let Some(t) = st.text {
            println!("TEXT {}", t);
        }
        match r {
            Ok(()) => println!("OK {}", st.outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
            Err(e) => {
                if let Some(f) = e.downcast_ref::<Failed>() {
                    println!("FAIL {}", f.0)
                } else if e.is::<Assume>() {
                    println!("ASSUME")
                } else if let Some(s) = e.downcast_ref::<String>() {
                    println!("PANIC {}", s.replace('\n', " "))
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    println!("PANIC {}", s.replace('\n', " "))
                } else {
                    println!("PANIC ?")
                }
            }
        }
    }
}
