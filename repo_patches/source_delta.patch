From 600f1173db6cb6ebf715fe14e5f2447d7ceac37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:34:24 +0000
Subject: [PATCH 01/44] fix: forget the previous circuit's elements when
 elaborating

An Engine that ran a second analysis still held the diodes, capacitors and
time-varying or dependent sources of the first one and stamped them again.
---
 src/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index e11a08d..910e56f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -461,6 +461,12 @@ impl Engine {
         // assume here that nodes have been indexed 0 -> N-1
         // where n is the number of nodes (including ground) in the circuit
 
+        // Forget the elements of any circuit elaborated earlier
+        self.nonlinear_elements.clear();
+        self.independent_sources.clear();
+        self.v_dependent_sources.clear();
+        self.storage_elements.clear();
+
         // Number of nodes, including ground (aka 0, aka gnd)
         self.c_nodes = ckt.count_nodes();
         println!("*INFO* There are {} nodes in the design, including ground", self.c_nodes);
-- 
2.43.0


From c75c9c0171df08ef0e530c7b424f4fee9bba9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:34:42 +0000
Subject: [PATCH 02/44] fix: start the transient from the DC operating point

The first timestep took the previous solution to be all zeros, so every
capacitor was discharged between the DC row and the first transient row.
---
 src/engine.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 910e56f..b29f4cd 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -188,7 +188,14 @@ impl Engine {
 
         // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
-        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];
+
+        // The solution at the previous timepoint. The first one is the DC operating
+        // point, or all zeros if no DC solution could be found.
+        let mut unknowns_prev : Vec<f64> = if unknowns.iter().all(|x| x.is_finite()) {
+            unknowns.to_vec()
+        } else {
+            vec![0.0; c_mna]
+        };
 
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS;
-- 
2.43.0


From 434bc79b09567f037a700447909a33c5d4180238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:34:58 +0000
Subject: [PATCH 03/44] fix: record each timestep at the time it was solved for

The solver evaluated the sources at t_now + t_delta, but the row was written
at t_now plus the *next* t_delta (already doubled, or clipped at TSTOP), TSTOP
could be written twice, and a failed last step was reported as having reached
TSTOP. Now time only advances once a step has converged, by the step that was
solved, and the last step lands on TSTOP.
---
 src/engine.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index b29f4cd..123d058 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -215,7 +215,7 @@ impl Engine {
         wavedb.dump_vector(t_now, &unknowns); // DC solution
 
         // timestep loop
-        let mut is_final_timestep = false;
+        let mut is_final_timestep = t_now >= cfg.TSTOP;
         #[allow(unused_variables)]
         let mut c_step = 0; // goes away with empty trace!
         let mut c_iteration: usize = 0;
@@ -236,6 +236,14 @@ impl Engine {
             }
 
 
+            // Land the last timestep on the stop time. The slack is so rounding errors
+            // in `t_now` don't leave a sliver of a timestep at the end.
+            let mut t_next = t_now + t_delta;
+            if t_next + (t_delta * 1e-6) >= cfg.TSTOP {
+                t_next = cfg.TSTOP;
+                t_delta = t_next - t_now;
+            }
+
             // solver loop
             // breaks when solved, or time-step too small
 
@@ -261,7 +269,7 @@ impl Engine {
                 let mut m = self.base_matrix.clone();
 
                 // stamp independent sources
-                self.independent_source_stamp(&mut m, t_now + t_delta);
+                self.independent_source_stamp(&mut m, t_next);
 
                 // Stamp voltage-dependent sources
                 self.v_dependent_source_stamp(&mut m);
@@ -302,6 +310,7 @@ impl Engine {
                                 } else {
                                     // reset iteration count
                                     trace!(" [TIMESTEP] Upshifting -> new t_delta = {}", t_delta);
+                                    t_next = t_now + t_delta;
                                     geared = true;
                                     c_itl = 0;
                                 }
@@ -322,6 +331,10 @@ impl Engine {
                 // update things for next loop
                 unknowns_prev = unknowns.to_vec();
 
+                // this is the time the solution is for
+                t_now = t_next;
+                is_final_timestep = t_now >= cfg.TSTOP;
+
                 // solver found it too easy, maybe there's not a lot going on
                 // reduce the t_delta
                 if !geared & (c_itl < cfg.ITL3) {
@@ -337,12 +350,6 @@ impl Engine {
             }
 
             c_step += 1;
-            t_now += t_delta;
-            if t_now > cfg.TSTOP {
-                t_now = cfg.TSTOP;
-                is_final_timestep = true;
-
-            } // solver
 
             // break out of this loop if an error was detected
             if error {
-- 
2.43.0


From baaad8187d438f4cec9333b3c5941fe5c676befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:30 +0000
Subject: [PATCH 04/44] fix: PWL sources hit their own breakpoints

A one-shot pattern wrapped round to its start at exactly its end time, a
pattern with a non-zero value at time 0 evaluated to NaN there, and whole
periods before the delay counted as the start of the pattern.
---
 src/element/vpwl.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index c38fbcd..641657d 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -29,16 +29,18 @@ impl VoltageSourcePwl {
 
         // If we're not repeating, and we're off the end of the pattern
         // return the final value
-        if (self.repeat < 0.0) && (t > (self.t_delay + t_period)) {
+        if (self.repeat < 0.0) && (t >= (self.t_delay + t_period)) {
             return self.pat[idx_last].1;
         }
 
-        // where in the cycle are we?
-        let t_cycle = ( t - self.t_delay ) % t_period;
-        if t_cycle < 0.0 {
+        // nothing happens until the delay has passed
+        if t < self.t_delay {
             return 0.0;
         }
 
+        // where in the cycle are we?
+        let t_cycle = ( t - self.t_delay ) % t_period;
+
         // find out which points we're between...
         let mut t1 = 0.0;
         let mut t2 = 0.0;
@@ -46,7 +48,7 @@ impl VoltageSourcePwl {
         let mut v2 = 0.0;
         for tv in &self.pat {
             //println!("time: {}; tv: {:?}", t_cycle, tv);
-            if t_cycle > tv.0 {
+            if t_cycle >= tv.0 {
                 t1 = tv.0;
                 v1 = tv.1;
             } else {
-- 
2.43.0


From 0a15799a33f387329f41257f8f05dc29f8b4ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:36 +0000
Subject: [PATCH 05/44] fix: don't panic on text that isn't quite a number

extract_value("+"), ("-k") and ("1e+") panicked instead of returning None.
---
 src/bracket_expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 547dfed..1f299ea 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -148,7 +148,8 @@ pub fn extract_value(text: &str) -> Option<f64> {
     let mut text_iter = text.chars();
 
     fn eval( txt :&str, mult: f64) -> Option<f64> {
-        Some( txt.parse::<f64>().unwrap() * mult )
+        // a lone sign or an exponent without digits is not a number
+        txt.parse::<f64>().ok().map(|n| n * mult)
     }
 
     'things: loop {
-- 
2.43.0


From 69e17f720829163826676a4b75db3df59fc18686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:00 +0000
Subject: [PATCH 06/44] fix: reject malformed bracket expressions

An unterminated expression ("{cval", "{") panicked with an index out of bounds,
and "{}" or anything after the closing bracket ("{cval}*2") was accepted.
---
 src/bracket_expression.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 1f299ea..c74b263 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -50,6 +50,12 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
 
     println!("*WARN* only expressions that are a single identifier are supported");
 
+    // this also stops the scans below from running off the end
+    if !text.ends_with('}') {
+        println!("*ERROR* - expected '}}'");
+        return None
+    }
+
     let expr_str: Vec<_> = text.chars().collect();
 
     let mut i:usize = 0;
@@ -89,7 +95,12 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
         }
     }
 
-    if expr_str[i] == '}' {
+    if ident.is_empty() {
+        println!("*ERROR* - expected an identifier");
+        return None
+    }
+
+    if expr_str[i] == '}' && i == expr_str.len() - 1 {
     } else {
         println!("*ERROR* - expected '}}'");
         return None
-- 
2.43.0


From 56c75bd912d86795c31a2c0b7a4fd70f7b293465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:19 +0000
Subject: [PATCH 07/44] fix: a ';' starts a comment wherever it is on the line

Only a free-standing ';' was recognised, so 'V1 a 0 5 ;note' dropped the source,
'tran 1u 1m ;note' panicked, and so did a line that is just a '; comment'.
---
 src/spice.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 99884ee..b6ca22a 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -128,27 +128,21 @@ impl Reader {
 
         for line_wr in lines_iter {
             let line = line_wr.unwrap();
-            let all_bits :Vec<&str> = line.split_whitespace().collect();
+
+            // strip comments off the end
+            let code = line.split(';').next().unwrap_or("");
+            let bits: Vec<&str> = code.split_whitespace().collect();
 
             // jump blank lines
-            if all_bits.is_empty() {
+            if bits.is_empty() {
                 continue;
             }
 
             // skip comment lines
-            if all_bits[0].starts_with('*') {
+            if bits[0].starts_with('*') {
                 continue;
             }
 
-            // strip comments off the end
-            let mut bits: Vec<&str> = vec![];
-            for b in all_bits {
-                if b == ";" {
-                    break;
-                }
-                bits.push(b);
-            }
-
             trace!("Bits: {:?}", bits);
 
             // if we're reading a lib and we haven't matched the `.lib` start
-- 
2.43.0


From 7ac0762d86ad1b32a03184cbcc2d9597f2fb5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:51 +0000
Subject: [PATCH 08/44] fix: cards that can't be read are errors

Unreadable R, C, D, E and G cards, I and V cards with an unknown kind of
source, and SIN() with extra parameters were reported on stdout, but the
deck was still simulated without them.
---
 src/spice.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index b6ca22a..254bcac 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -217,6 +217,9 @@ impl Reader {
                         trace!("*INFO* Isin");
                         let src = self.extract_i_sine(&bits);
                         self.ckts[self.c].add_i_sin(src);
+                    } else {
+                        println!("*ERROR* unsupported current source: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('V') {
                     let _ = extract_identifier(bits[0]);
@@ -237,36 +240,42 @@ impl Reader {
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('R') {
                     if let Some(r) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(r);
                     } else {
                         println!("*ERROR* can't extract resistance");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('C') {
                     if let Some(c) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(c);
                     } else {
                         println!("*ERROR* can't extract capacitor");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('D') {
                     if let Some(d) = self.extract_primitive(&bits, 2, 0) {
                         self.ckts[self.c].add_instance(d);
                     } else {
                         println!("*ERROR* can't extract diode");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('E') {
                     if let Some(e) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(e);
                     } else {
                         println!("*ERROR* can't extract VCVS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('G') {
                     if let Some(g) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(g);
                     } else {
                         println!("*ERROR* can't extract VCCS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
@@ -441,7 +450,8 @@ impl Reader {
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+            println!("*ERROR* expected 3 parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
@@ -479,7 +489,8 @@ impl Reader {
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+            println!("*ERROR* expected 3 parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
-- 
2.43.0


From 1a6584d0dec0dc58ec51ea7c55b80a767e209264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:25 +0000
Subject: [PATCH 09/44] fix: expand the V and I sources inside subcircuits

Independent sources in a .subckt were read, but never made it into the
expanded circuit, so they were silently left out of every instance.
---
 src/expander.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index b47dd8c..8b36047 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -47,6 +47,10 @@ use crate::element::diode::Diode;
 
 use crate::element::vdepsrc::{Vcvs, Vccs};
 
+use crate::element::isine::CurrentSourceSine;
+use crate::element::vsine::VoltageSourceSine;
+use crate::element::vpwl::VoltageSourcePwl;
+
 use crate::parameter::Parameter;
 use crate::bracket_expression::{Expression};
 
@@ -337,11 +341,50 @@ fn expand_subckt(
     }
 
     hier.push(inst.name.to_string()); // inst-name
+    expand_sources(ckts, ckt, subckt_id, &hier);
     expand_instances(ckts, ckt, subckt_id, &hier);
     hier.pop(); // inst-name
 }
 
 
+/// Expand the independent sources of a subcircuit
+///
+/// These are not instances: the reader adds them as elements straight away.
+fn expand_sources(
+    ckts: &[Circuit],
+    ckt: &mut Circuit,
+    subckt_id: usize,
+    hier: &[String]
+) {
+    for el in &ckts[subckt_id].elements {
+        let (lp, ln) = match el {
+            Element::I(src) => (src.p, src.n),
+            Element::V(src) => (src.p, src.n),
+            Element::Isin(src) => (src.p, src.n),
+            Element::Vsin(src) => (src.p, src.n),
+            Element::Vpwl(src) => (src.p, src.n),
+            _ => {
+                println!("*ERROR* Unrecognised source '{}'", el);
+                panic!("*FATAL*");
+            }
+        };
+
+        let p = local_connect(ckts, ckt, subckt_id, hier, lp);
+        let n = local_connect(ckts, ckt, subckt_id, hier, ln);
+
+        // the `add_v` functions hand out the voltage source indices
+        match el {
+            Element::I(src) => ckt.add_i(p, n, src.value),
+            Element::V(src) => ckt.add_v(p, n, src.value),
+            Element::Isin(src) => ckt.add_i_sin(CurrentSourceSine {p, n, ..src.clone()}),
+            Element::Vsin(src) => ckt.add_v_sin(VoltageSourceSine {p, n, ..src.clone()}),
+            Element::Vpwl(src) => ckt.add_v_pwl(VoltageSourcePwl {p, n, ..src.clone()}),
+            _ => {},
+        }
+    }
+}
+
+
 /// Expand a primitive instantiation
 /// (not recursive)
 //
-- 
2.43.0


From 9758872787e530ebf020599711fd972bbe19fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:47 +0000
Subject: [PATCH 10/44] fix: every primitive gets the value on its own card

Values are looked up by instance name and the first match won, so a second
'R' (as in ngspice/test_reader.spi) was given the value of the first one.
---
 src/circuit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 73fc865..77f3fd9 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -418,8 +418,11 @@ impl Circuit {
     /// Find a parameter value
     ///
     /// `N` is small..
+    ///
+    /// The latest definition wins: if instances share a name, the values of
+    /// the one being expanded were added last.
     pub fn get_param_value(&self, name: &str) -> Option<f64> {
-        for p in &self.params {
+        for p in self.params.iter().rev() {
             if p.name == name {
                 return p.value
             }
-- 
2.43.0


From e45c884e8459c6ba4e9b3d219ad77931ba0ca0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:34 +0000
Subject: [PATCH 11/44] fix: no limit on the number of nodes

count_nodes() panicked on circuits with more than 255 nodes.
---
 src/circuit.rs     | 131 +++------------------------------------------
 src/element/mod.rs |  21 ++++++++
 2 files changed, 27 insertions(+), 125 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 77f3fd9..97649fe 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -1,6 +1,6 @@
 //! Datastructures for describing a Circuit
 use std::fmt;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub use crate::parameter::Parameter;
 
@@ -143,133 +143,14 @@ impl Circuit {
     /// Count the nodes in the circuit
     pub fn count_nodes(&self) -> usize {
 
-        // number of nodes in the circuit - there is always at least ground
-        let mut c_nodes: usize = 1;
-
-        let mut seen = [false; 256]; // max nodes magic number
-        seen[0] = true; // always a ground
+        // there is always at least ground
+        let mut seen: HashSet<NodeId> = HashSet::new();
+        seen.insert(0);
 
         for el in &self.elements {
-                match *el {
-                    Element::I(CurrentSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::R(Resistor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::V(VoltageSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::D(Diode{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Isin(CurrentSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vsin(VoltageSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::C(Capacitor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vpwl(VoltageSourcePwl{ ref p, ref n, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vcvs(Vcvs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vccs(Vccs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                }
+            seen.extend(el.nodes());
         }
-        c_nodes
+        seen.len()
     }
 
     /// Count the voltage sources in the circuit
diff --git a/src/element/mod.rs b/src/element/mod.rs
index 71e3484..33ac9c9 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -2,6 +2,8 @@
 
 use std::fmt;
 
+use crate::circuit::NodeId;
+
 pub mod resistor;
 pub mod capacitor;
 pub mod diode;
@@ -31,6 +33,25 @@ pub enum Element {
     Vccs(vdepsrc::Vccs),
 }
 
+impl Element {
+
+    /// The nodes this element is connected to
+    pub fn nodes(&self) -> Vec<NodeId> {
+        match *self {
+            Element::R(ref el) => vec![el.a, el.b],
+            Element::I(ref el) => vec![el.p, el.n],
+            Element::V(ref el) => vec![el.p, el.n],
+            Element::D(ref el) => vec![el.p, el.n],
+            Element::Isin(ref el) => vec![el.p, el.n],
+            Element::Vsin(ref el) => vec![el.p, el.n],
+            Element::Vpwl(ref el) => vec![el.p, el.n],
+            Element::C(ref el) => vec![el.a, el.b],
+            Element::Vcvs(ref el) => vec![el.p, el.n, el.cp, el.cn],
+            Element::Vccs(ref el) => vec![el.p, el.n, el.cp, el.cn],
+        }
+    }
+
+}
 
 impl fmt::Display for Element {
     fn fmt (&self, f:&mut fmt::Formatter) -> fmt::Result {
-- 
2.43.0


From 8483b54957160712b62e7ed9ea1eed72fc48e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:53 +0000
Subject: [PATCH 12/44] fix: renumber nodes after dropping the dangling ones

---
 src/element/mod.rs | 16 ++++++++++++++++
 src/expander.rs    | 31 +++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 33ac9c9..3f18772 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -51,6 +51,22 @@ impl Element {
         }
     }
 
+    /// The nodes this element is connected to, to change them
+    pub fn nodes_mut(&mut self) -> Vec<&mut NodeId> {
+        match *self {
+            Element::R(ref mut el) => vec![&mut el.a, &mut el.b],
+            Element::I(ref mut el) => vec![&mut el.p, &mut el.n],
+            Element::V(ref mut el) => vec![&mut el.p, &mut el.n],
+            Element::D(ref mut el) => vec![&mut el.p, &mut el.n],
+            Element::Isin(ref mut el) => vec![&mut el.p, &mut el.n],
+            Element::Vsin(ref mut el) => vec![&mut el.p, &mut el.n],
+            Element::Vpwl(ref mut el) => vec![&mut el.p, &mut el.n],
+            Element::C(ref mut el) => vec![&mut el.a, &mut el.b],
+            Element::Vcvs(ref mut el) => vec![&mut el.p, &mut el.n, &mut el.cp, &mut el.cn],
+            Element::Vccs(ref mut el) => vec![&mut el.p, &mut el.n, &mut el.cp, &mut el.cn],
+        }
+    }
+
 }
 
 impl fmt::Display for Element {
diff --git a/src/expander.rs b/src/expander.rs
index 8b36047..49eda7e 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -81,12 +81,43 @@ pub fn expand(ckts: &[Circuit]) -> Circuit {
     expand_instances(ckts, &mut ckt, 0, &hier);
     trace!("------------------------------------------------");
 
+    renumber_nodes(&mut ckt);
     ckt.build_node_id_lut();
     ckt
 
 }
 
 
+/// Renumber the nodes so the `NodeId`s in use are 0 to N-1.
+///
+/// The engine uses `NodeId`s as matrix indices and puts the voltage sources
+/// right after the last node. Nodes with no elements on them (e.g. those wired
+/// to a subcircuit port that isn't used) would leave gaps, so they are dropped.
+fn renumber_nodes(ckt: &mut Circuit) {
+    let mut used: Vec<NodeId> = ckt.elements.iter().flat_map(|el| el.nodes()).collect();
+    used.push(0); // always a ground
+    used.sort_unstable();
+    used.dedup();
+
+    for el in &mut ckt.elements {
+        for nid in el.nodes_mut() {
+            *nid = used.binary_search(nid).expect("all nodes on elements are used");
+        }
+    }
+
+    ckt.nodes.retain(|_, nid| {
+        if let Ok(new) = used.binary_search(nid) {
+            *nid = new;
+            true
+        } else {
+            false
+        }
+    });
+    ckt.nid_next = used.len();
+    ckt.node_id_lut.clear();
+}
+
+
 /// Expand the instances in the current scope.
 ///
 /// Foreach instance in at this level
-- 
2.43.0


From b0f396f45776118d7d0082a426547e7d52e06973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:58 +0000
Subject: [PATCH 13/44] fix: name nodes the same way on every run

---
 src/circuit.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 97649fe..b32197b 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -290,9 +290,18 @@ impl Circuit {
 
     /// Build NodeId lookup
     /// Do this after reading in the SPICE circuit
+    ///
+    /// A node can have many names. Pick the one from the highest level of the
+    /// hierarchy, as that's the one that's in the SPICE deck. (The order that
+    /// the `HashMap` is iterated over is different every time)
     pub fn build_node_id_lut(&mut self) {
-        for (name, id) in &self.nodes {
-            self.node_id_lut.insert(*id, String::from(name));
+        let mut names: Vec<&String> = self.nodes.keys().collect();
+        names.sort_by_key(|name| (name.matches('.').count(), *name));
+
+        self.node_id_lut.clear();
+        for name in names {
+            let id = self.nodes[name];
+            self.node_id_lut.entry(id).or_insert_with(|| String::from(name));
         }
     }
 
-- 
2.43.0


From daa92928b1d3e65ea11670f16f2c80fac7b93230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:05 +0000
Subject: [PATCH 14/44] fix: don't simulate if an instance and its subcircuit
 don't line up

---
 src/expander.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expander.rs b/src/expander.rs
index 49eda7e..d920c52 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -343,6 +343,7 @@ fn expand_subckt(
     if ckts[subckt_id].num_ports != inst.conns.len() {
         print!("*ERROR* Instantiation and subcircuit definitions ");
         println!("have different port sizes");
+        panic!("*FATAL* Wrong number of connections on '{}'", inst.name);
     }
 
 
-- 
2.43.0


From c852c9332c3d1688d0a87f18daa9bef005956c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:25 +0000
Subject: [PATCH 15/44] fix: check the names of ports and connections

---
 src/spice.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 254bcac..3047d76 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -313,8 +313,12 @@ impl Reader {
                                 }
                                 continue;
                             }
-                            self.ckts[self.c].add_node(nn);
+                            // ports get the `NodeId`s from 1 up, in order
                             num_ports += 1;
+                            if self.extract_node(nn) != num_ports {
+                                println!("*ERROR* can't use '{}' as a port", nn);
+                                self.there_are_errors = true;
+                            }
                         }
                         self.ckts[self.c].num_ports = num_ports;
 
@@ -625,7 +629,7 @@ impl Reader {
 
         // Store the connections as NodeIds
         for conn in bits.iter().take(subckt_id).skip(1) {
-            let nid = self.ckts[self.c].add_node(conn);
+            let nid = self.extract_node(conn);
             inst.add_connection(nid);
         }
 
-- 
2.43.0


From d584eda72946fdbd44ac57699f60037168778b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:33 +0000
Subject: [PATCH 16/44] fix: don't fall back on the default if an override
 can't be resolved

---
 src/expander.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index d920c52..769db80 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -193,14 +193,12 @@ fn expand_instances(
 
                     let lut = ckt.get_param_value(&lookup_param_name);
 
-                    #[allow(clippy::manual_map)] // cos of the trace!
                     if let Some(val) = lut {
                         trace!("Found value for identifier in param");
                         Some(val)
                     } else {
-                        trace!("Can't find identifier '{}' for param '{}'",
+                        panic!("*FATAL* Can't find identifier '{}' for param '{}'",
                                lookup_param_name, param_full_name);
-                        None
                     }
                 },
 
-- 
2.43.0


From f14efb9edb34dc34440a1d85a3f297446fb99bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:57 +0000
Subject: [PATCH 17/44] fix: a .subckt without a .ends is an error

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 3047d76..b059a5f 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -373,6 +373,11 @@ impl Reader {
             //println!("{}", line);
         }
 
+        if in_subckt {
+            println!("*ERROR* .subckt without a .ends");
+            self.there_are_errors = true;
+        }
+
         // if we were reading a library definition and we haven't found a
         // start (or FIXME a finish), then complain.
         if let ReadMode::Library(ref libn) = readmode {
-- 
2.43.0


From 00224694d720ca32c7db2dfa99fb4512a4cfd696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:05 +0000
Subject: [PATCH 18/44] fix: reject timesteps that never get anywhere

---
 src/spice.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index b059a5f..4a3db9c 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -187,6 +187,10 @@ impl Reader {
                     if bits.len() > 3 {
                         self.cfg.TSTART = extract_value(bits[3]).unwrap();
                     }
+                    if self.cfg.TSTEP <= 0.0 {
+                        println!("*ERROR* the timestep has to be bigger than zero");
+                        self.there_are_errors = true;
+                    }
                 } else if bits[0] == "option" {
                         self.extract_option(&bits);
                 } else if bits[0] == ".endc" {
@@ -431,6 +435,10 @@ impl Reader {
             },
             "RMAX" => {
                 self.cfg.RMAX = extract_value(bits[3]).unwrap();
+                if self.cfg.RMAX <= 0.0 {
+                    println!("*ERROR* RMAX has to be bigger than zero");
+                    self.there_are_errors = true;
+                }
             },
             _ => {
             }
-- 
2.43.0


From 4e15175499f2cb871fdf64bdfb6786e9970fd10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:13 +0000
Subject: [PATCH 19/44] fix: keep the first timestep within RMAX too

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 123d058..db9b850 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -198,7 +198,7 @@ impl Engine {
         };
 
         // transient loop
-        let mut t_delta = cfg.TSTEP * cfg.FS;
+        let mut t_delta = cfg.TSTEP * cfg.FS.min(cfg.RMAX);
         let t_delta_min = cfg.TSTEP * cfg.RMIN; // not mimimum resistance...
         let mut t_now = 0.0;
 
-- 
2.43.0


From 783e834073b3a27a761d84f33fd0a4684fcd1f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:42 +0000
Subject: [PATCH 20/44] fix: don't call it converged if there are NaNs about

---
 src/engine.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index db9b850..bf7d6eb 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -982,8 +982,7 @@ impl Engine {
         for (i,x) in xv.iter().enumerate() {
             if !x.is_finite() {
                 println!("*ERROR* math gone bad - infinites in convergence check {}", i);
-                res = Err(ConvergenceError::Divergent);
-                continue;
+                return Err(ConvergenceError::Divergent);
             }
             let limit: f64 = if i < self.c_nodes {
                 x.abs() * cfg.RELTOL + cfg.VNTOL
@@ -993,7 +992,9 @@ impl Engine {
 
             let this = (x - yv[i]).abs();
             trace!("  [CONVERGE] {} < {} = {}", this, limit, (this < limit));
-            if this > limit {
+            // written like this so it's not converged if the old value is a NaN
+            #[allow(clippy::neg_cmp_op_on_partial_ord)]
+            if !(this <= limit) {
                 res = Ok(false);
             }
         }
-- 
2.43.0


From 9d30a13506b6071239c74cc96bc9778e5834bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:42 +0000
Subject: [PATCH 21/44] fix: let the timestep shrink when the solver struggles

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 10a3f37..a10144d 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -131,7 +131,7 @@ impl Configuration {
 
             FS: 0.25,
             FT: 0.25,
-            RMIN: 1e03,
+            RMIN: 1e-3,
             RMAX: 5.0,
             ITL3: 6,
             ITL4: 50,
-- 
2.43.0


From a8e3c9cf165f2d5558a99337d1a2c6e4e85d2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:05 +0000
Subject: [PATCH 22/44] fix: no solution isn't the same as any solution will do

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index bf7d6eb..e9687a4 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -639,7 +639,7 @@ impl Engine {
         let i_last = c_mna - 1;
         n[i_last] = v[i_last][c_mna] / v[i_last][i_last];
         //println!("[lst]  {} / {}",  v[i_last][c_mna], v[i_last][i_last] );
-        if !n[i_last].is_finite() {
+        if n[i_last].is_nan() { // infinite means there's no solution
             println!("*WARNING* have to hack the first solve to 0.0");
             println!(" This can happen if solving a 0V source from a node to ground");
             n[i_last] = 0.0;
-- 
2.43.0


From 23c4d0d0759ff2964e2d5e4331b14e7dc28d2b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:05 +0000
Subject: [PATCH 23/44] fix: write waveforms with all their digits

---
 src/wavewriter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 28c0339..73ee6d0 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -83,10 +83,10 @@ impl WaveWriter<'_> {
 
     pub fn dump_vector(&mut self, time: f64, vars: &[f64]) {
         if let Some(ref mut file) = self.file {
-            let mut line = format!("{:0.9}", time);
+            let mut line = format!("{:e}", time);
 
             for var in vars {
-                let bit = format!("\t{:0.9}", var);
+                let bit = format!("\t{:e}", var);
                 line += &bit;
             }
             line += "\n";
-- 
2.43.0


From 52ca383171de95bce157236fd3fd17bdc7a27f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:13 +0000
Subject: [PATCH 24/44] fix: keep the waveforms under waves

---
 src/spice.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 4a3db9c..b1e4398 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -28,7 +28,7 @@
 //!   * Subcircuit definitions with `.subckt` and `.ends`
 //!   * Instantiations with `X...`
 
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::fs::File;
 use std::io::{BufReader, BufRead};
 
@@ -165,16 +165,12 @@ impl Reader {
                 trace!("*INFO* Parsing control '{}'", bits[0]);
                 if bits[0] == "op" {
                     self.cfg.kind = Some(Kind::DcOperatingPoint);
-                    let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
-                        .join("dc.dat");
+                    let wavefile = waves_dir(&self.cfg.ckt_name).join("dc.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
                 } else if bits[0] == "tran" {
                     self.cfg.kind = Some(Kind::Transient);
-                    let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
-                        .join("tran.dat");
+                    let wavefile = waves_dir(&self.cfg.ckt_name).join("tran.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
                     // step stop <start>
@@ -796,6 +792,21 @@ fn extract_identifier(text: &str) -> String {
 }
 
 
+/// The directory for the waveforms of a SPICE deck
+///
+/// This is always somewhere under `waves`: absolute paths and `..`s would put
+/// the waveforms elsewhere, possibly where the SPICE deck is.
+fn waves_dir(ckt_name: &str) -> PathBuf {
+    let mut dir = PathBuf::from("waves");
+    for bit in Path::new(ckt_name).components() {
+        if let Component::Normal(name) = bit {
+            dir.push(name);
+        }
+    }
+    dir
+}
+
+
 /// Look around for an include or library file.
 ///
 /// It should be relative to the file it is called from, unless
-- 
2.43.0


From 08091032a4ce20316dd0c2a90ab755902f881fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:30 +0000
Subject: [PATCH 25/44] fix: read PWL patterns that have no spaces in them

---
 src/spice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index b1e4398..671b520 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -225,7 +225,7 @@ impl Reader {
                     let _ = extract_identifier(bits[0]);
                     let node1 = self.extract_node(bits[1]);
                     let node2 = self.extract_node(bits[2]);
-                    if bits.len() == 4 {
+                    if bits.len() == 4 && !bits[3].contains('(') {
                         trace!("*INFO* Vdc");
                         let value = extract_value(bits[3]);
                         self.ckts[self.c].add_v(node1, node2, value.unwrap());
-- 
2.43.0


From 540eaae2f22ad8ce9afc2f2c63b0e03b4cd31496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 26/44] fix: it's not converged while the diode voltages are
 being limited

---
 src/element/diode.rs |  9 +++++++++
 src/engine.rs        | 13 +++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/element/diode.rs b/src/element/diode.rs
index 9b701d0..93378bd 100644
--- a/src/element/diode.rs
+++ b/src/element/diode.rs
@@ -23,6 +23,7 @@ pub struct Diode {
     v_d_prev: Cell<f64>,
     i_d_prev: Cell<f64>,
     g_eq_prev: Cell<f64>,
+    limited: Cell<bool>,
 }
 
 impl Diode {
@@ -39,6 +40,7 @@ impl Diode {
             v_d_prev: Cell::new(0.0),
             i_d_prev: Cell::new(0.0),
             g_eq_prev: Cell::new(GMIN),
+            limited: Cell::new(false),
         };
         d.update_v_thermal();
         d.update_v_crit();
@@ -108,9 +110,16 @@ impl Diode {
         self.v_d_prev.set(v_d_i);
         self.i_d_prev.set(i_d);
         self.g_eq_prev.set(g_eq);
+        self.limited.set(v_d_i != v_hat);
         (g_eq, i_eq)
     }
 
+    /// Was the voltage limited the last time the diode was linearized?
+    /// If so, the companion model isn't for the voltage across the diode.
+    pub fn is_limited(&self) -> bool {
+        self.limited.get()
+    }
+
     /// thermal voltage. Should be ~26mV at room temperature
     fn update_v_thermal(&mut self) {
         self.v_thermal = BOLTZMANN * (363.0 + self.tdegc) / CHARGE;
diff --git a/src/engine.rs b/src/engine.rs
index e9687a4..2efa3a8 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -294,7 +294,7 @@ impl Engine {
                 // Convergence check
                 match self.convergence_check(&unknowns, &unknowns_solve, cfg) {
                     Ok(cnvg) => {
-                        if cnvg {
+                        if cnvg && !self.nonlinear_limited() {
                             trace!(" [TIMESTEP] Timestep converged after {} iterations", c_itl);
                             converged = true;
                             break;
@@ -417,7 +417,7 @@ impl Engine {
             if c_iteration > 0 {
                 match self.convergence_check(&unknowns, &unknowns_prev, cfg) {
                     Ok(cnvd) => {
-                        if cnvd {
+                        if cnvd && !self.nonlinear_limited() {
                             converged = true;
                             break;
                         }
@@ -857,6 +857,15 @@ impl Engine {
         //self.pp_matrix(&m);
     }
 
+    // was the voltage across any of the nonlinear devices limited for the last
+    // stamp? Then the solution isn't for the actual device voltages.
+    fn nonlinear_limited(&self) -> bool {
+        self.nonlinear_elements.iter().any(|el| match *el {
+            circuit::Element::D(ref d) => d.is_limited(),
+            _ => false,
+        })
+    }
+
     fn v_dependent_source_stamp(&self, m: &mut [Vec<f64>]) {
 
         if !&self.v_dependent_sources.is_empty() {
-- 
2.43.0


From 1f8de1c31294e0fdbb6da030d878e6ca1cfe01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 27/44] fix: a PWL parameter that isn't a number is an error

---
 src/spice.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 671b520..53b094a 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -548,6 +548,9 @@ impl Reader {
                     let val = if let Some(Literal(v)) = param.expr {
                         v
                     } else {
+                        println!("*ERROR* expected a number for PWL parameter '{}'",
+                            param.name);
+                        self.there_are_errors = true;
                         0.0
                     };
 
-- 
2.43.0


From 00f96f5779ca91ba44b5f892dfb36cd25fe5b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 28/44] fix: an option without an equals sign is an error

---
 src/spice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spice.rs b/src/spice.rs
index 53b094a..71f7903 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -419,6 +419,7 @@ impl Reader {
         // FIXME - might be "abstol=2e6" too - lower case, no spaces surrounding '='
         if bits[2] != "=" {
             println!("*ERROR* Expected '=' in option setting");
+            self.there_are_errors = true;
             return;
         }
 
-- 
2.43.0


From 9e9a045afe75295d0ede6f90b7d1d992ffbb30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 29/44] fix: don't start a transient without an operating point

---
 src/engine.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 2efa3a8..fcd60f5 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -61,6 +61,9 @@ pub struct Engine {
     // DC operating point
     dc_op: Vec<f64>,
 
+    // did the search for the DC operating point find one?
+    dc_op_converged: bool,
+
 }
 
 impl Engine {
@@ -76,6 +79,7 @@ impl Engine {
             v_dependent_sources: vec![],
             storage_elements: vec![],
             dc_op: vec![],
+            dc_op_converged: false,
         }
     }
 
@@ -190,12 +194,8 @@ impl Engine {
         let c_mna = self.c_nodes + self.c_vsrcs;
 
         // The solution at the previous timepoint. The first one is the DC operating
-        // point, or all zeros if no DC solution could be found.
-        let mut unknowns_prev : Vec<f64> = if unknowns.iter().all(|x| x.is_finite()) {
-            unknowns.to_vec()
-        } else {
-            vec![0.0; c_mna]
-        };
+        // point.
+        let mut unknowns_prev : Vec<f64> = unknowns.to_vec();
 
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS.min(cfg.RMAX);
@@ -212,6 +212,17 @@ impl Engine {
         // open waveform database
         let mut wavedb = WaveWriter::new(&cfg.wavefile, &ckt.node_id_lut).unwrap();
         wavedb.header(self.c_nodes, self.c_vsrcs);
+
+        // nowhere to start from?
+        if !self.dc_op_converged {
+            println!("*ERROR* Didn't find a DC operating point to start from");
+            return analysis::Statistics {
+                kind: analysis::Kind::Transient,
+                end: t_now,
+                iterations: dc_op_stats.iterations,
+            };
+        }
+
         wavedb.dump_vector(t_now, &unknowns); // DC solution
 
         // timestep loop
@@ -448,6 +459,7 @@ impl Engine {
         };
 
         self.dc_op = unknowns.clone();
+        self.dc_op_converged = converged;
         stats
     }
 
-- 
2.43.0


From a31a8db7c3b6c074a7430571f39d08d28f7bc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 30/44] fix: follow '..' in the deck's path when naming its
 waveforms

---
 src/spice.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 71f7903..1f71be1 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -802,9 +802,18 @@ fn extract_identifier(text: &str) -> String {
 /// the waveforms elsewhere, possibly where the SPICE deck is.
 fn waves_dir(ckt_name: &str) -> PathBuf {
     let mut dir = PathBuf::from("waves");
+    let mut depth = 0; // of the directory, below `waves`
     for bit in Path::new(ckt_name).components() {
-        if let Component::Normal(name) = bit {
-            dir.push(name);
+        match bit {
+            Component::Normal(name) => {
+                dir.push(name);
+                depth += 1;
+            },
+            Component::ParentDir if depth > 0 => {
+                dir.pop();
+                depth -= 1;
+            },
+            _ => {},
         }
     }
     dir
-- 
2.43.0


From 3dc48fa9674679f181c85ef12fe25f8549eec9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 31/44] fix: a subcircuit may have the name of the deck

---
 src/expander.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index 769db80..e4196b6 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -553,9 +553,10 @@ fn expand_primitive(
 /// Find the index of the subcircuit called `name`.
 ///
 /// `N` is small, so just search the circuit list one by one until
-/// a name match is found.
+/// a name match is found. The first circuit is the toplevel (it's named after
+/// the SPICE file), so that's never a match.
 fn find_subckt_index(ckts: &[Circuit], name: &str) -> Option<usize> {
-    for (i, ckt) in ckts.iter().enumerate() {
+    for (i, ckt) in ckts.iter().enumerate().skip(1) {
         if ckt.name == name {
             return Some(i);
         }
-- 
2.43.0


From d257d4af0786605b51d28a750eea9c4f003c0b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 32/44] fix: two subcircuit instances of the same name are an
 error

---
 src/spice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 1f71be1..84df972 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -280,6 +280,10 @@ impl Reader {
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
                     let inst = self.extract_instance(&bits);
+                    if self.ckts[self.c].instances.iter().any(|i| i.name == inst.name) {
+                        println!("*ERROR* there's already an instance called '{}'", inst.name);
+                        self.there_are_errors = true;
+                    }
                     self.ckts[self.c].add_instance(inst);
                 } else if bits[0].starts_with('.') {
                     if bits[0] == ".control" {
-- 
2.43.0


From 8014a4ebaeb738985cc6334ba07a8d93119d8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 33/44] fix: report waveforms that can't be written

The result of writing to the waveform file was ignored, so with the disk full
rows were silently lost.
---
 src/wavewriter.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 73ee6d0..555bbf3 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -75,24 +75,30 @@ impl WaveWriter<'_> {
         }
         units += "\n";
 
-        if let Some(ref mut file) = self.file {
-            let _ = file.write_all(names.as_bytes());
-            let _ = file.write_all(units.as_bytes());
-        }
+        self.write(&names);
+        self.write(&units);
     }
 
     pub fn dump_vector(&mut self, time: f64, vars: &[f64]) {
-        if let Some(ref mut file) = self.file {
-            let mut line = format!("{:e}", time);
+        let mut line = format!("{:e}", time);
 
-            for var in vars {
-                let bit = format!("\t{:e}", var);
-                line += &bit;
-            }
-            line += "\n";
-            let _ = file.write_all(line.as_bytes());
+        for var in vars {
+            let bit = format!("\t{:e}", var);
+            line += &bit;
         }
+        line += "\n";
+        self.write(&line);
+    }
 
+    // write a line to the file. After a failure nothing more is written, so there
+    // are no rows missing in the middle.
+    fn write(&mut self, line: &str) {
+        if let Some(ref mut file) = self.file {
+            if let Err(why) = file.write_all(line.as_bytes()) {
+                println!("*ERROR* Can't write to waveform file: {}", why);
+                self.file = None;
+            }
+        }
     }
 
 }
-- 
2.43.0


From 6089ee24f48efbe7b03219ddac8c934d5919b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 34/44] fix: a subcircuit that contains itself is an error

---
 src/expander.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index e4196b6..ffa8421 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -335,6 +335,12 @@ fn expand_subckt(
         panic!();
     };
 
+    // deeper than there are subcircuits? Then one of them contains itself, and
+    // there's no end to it.
+    if hier.len() + 1 >= ckts.len() {
+        panic!("*FATAL* Subcircuit '{}' contains itself", inst.subckt);
+    }
+
     // check that the instantiation and the subckt agree on the
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
-- 
2.43.0


From 16bc425419b7110a0058fb6fe62be3a9fff3a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 35/44] fix: a .control without a .endc is an error

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 84df972..c749f2e 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -382,6 +382,11 @@ impl Reader {
             self.there_are_errors = true;
         }
 
+        if in_control_block {
+            println!("*ERROR* .control without a .endc");
+            self.there_are_errors = true;
+        }
+
         // if we were reading a library definition and we haven't found a
         // start (or FIXME a finish), then complain.
         if let ReadMode::Library(ref libn) = readmode {
-- 
2.43.0


From 4940258409a7f18ff2fd8f582153674c530b7a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 36/44] fix: a voltage source with both ends on one node

The stamps of the two ends overwrote each other, so that 'V1 a a 5' came out as
v(a) = -5 and 'V1 a a 0' as v(a) = 0. They have to add up, to nothing.
---
 src/engine.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index fcd60f5..8d9fcd7 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -757,14 +757,15 @@ impl Engine {
         let p_not_grounded = (vsrc.p != 0);
         let n_not_grounded = (vsrc.n != 0);
 
+        // both ends can be on the same node, so these have to add up
         if p_not_grounded {
-            m[idx_vsrc][vsrc.p] = 1.0;
-            m[vsrc.p][idx_vsrc] = 1.0;
+            m[idx_vsrc][vsrc.p] += 1.0;
+            m[vsrc.p][idx_vsrc] += 1.0;
         }
 
         if n_not_grounded {
-            m[idx_vsrc][vsrc.n] = -1.0;
-            m[vsrc.n][idx_vsrc] = -1.0;
+            m[idx_vsrc][vsrc.n] -= 1.0;
+            m[vsrc.n][idx_vsrc] -= 1.0;
         }
     }
 
-- 
2.43.0


From c281bd1fb7457e7a4a9e4d483dd65beacbce3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 37/44] fix: a PWL source went back to its first value for a
 moment at its end

'PWL(0, 0, 9m, 5) td=1m' at 10 ms: t isn't past delay + period, which is
10.000000000000002 ms, but t - delay is the whole period, and its remainder is 0.
---
 src/element/vpwl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index 641657d..e783230 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -29,7 +29,7 @@ impl VoltageSourcePwl {
 
         // If we're not repeating, and we're off the end of the pattern
         // return the final value
-        if (self.repeat < 0.0) && (t >= (self.t_delay + t_period)) {
+        if (self.repeat < 0.0) && ((t - self.t_delay) >= t_period) {
             return self.pat[idx_last].1;
         }
 
-- 
2.43.0


From 29895aeea39d709781b7baceb037f54ba36a68c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 38/44] fix: a timestep lost in the rounding of the time stops
 the analysis

When it's so small that t + dt == t, time stood still: rows were repeated, and
the analysis might go on reducing and doubling the step forever.
---
 src/engine.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 8d9fcd7..301e4b2 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -255,6 +255,12 @@ impl Engine {
                 t_delta = t_next - t_now;
             }
 
+            // no progress if it's lost in the rounding of `t_now`
+            if t_next <= t_now {
+                println!("*ERROR* Internal timestep too small");
+                break;
+            }
+
             // solver loop
             // breaks when solved, or time-step too small
 
@@ -314,7 +320,7 @@ impl Engine {
                             if c_itl >= cfg.ITL4 {
                                 t_delta *= cfg.FT;
                                 // check if we're ok to continue iterating
-                                if t_delta < t_delta_min {
+                                if t_delta < t_delta_min || t_now + t_delta <= t_now {
                                     println!("*ERROR* Internal timestep too small");
                                     error = true;
                                     break;
-- 
2.43.0


From cb1f37362357e32084106ff0e348d80f0aecc1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:47 +0000
Subject: [PATCH 39/44] fix: comments in decks don't have to be UTF-8

A deck with say a Latin-1 micro sign in a comment or in the library section next
door wasn't read.
---
 src/spice.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index c749f2e..dc9ff90 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -28,6 +28,7 @@
 //!   * Subcircuit definitions with `.subckt` and `.ends`
 //!   * Instantiations with `X...`
 
+use std::borrow::Cow;
 use std::path::{Component, Path, PathBuf};
 use std::fs::File;
 use std::io::{BufReader, BufRead};
@@ -98,7 +99,7 @@ impl Reader {
 
         let input = File::open(filepath).unwrap();
         let buf = BufReader::new(input);
-        let mut lines_iter = buf.lines();
+        let mut lines_iter = buf.split(b'\n'); // not necessarily UTF-8
         let mut in_control_block = false;
         let mut in_subckt = false;
         let mut in_libdef = false;
@@ -127,7 +128,8 @@ impl Reader {
         lines_iter.next();
 
         for line_wr in lines_iter {
-            let line = line_wr.unwrap();
+            let bytes = line_wr.unwrap();
+            let line = String::from_utf8_lossy(&bytes);
 
             // strip comments off the end
             let code = line.split(';').next().unwrap_or("");
@@ -160,6 +162,12 @@ impl Reader {
             }
 
 
+            // anything goes in comments, but not elsewhere
+            if matches!(line, Cow::Owned(_)) && code.contains(char::REPLACEMENT_CHARACTER) {
+                println!("*ERROR* this line isn't UTF-8: '{}'", code);
+                self.there_are_errors = true;
+            }
+
             // let's go
             if in_control_block {
                 trace!("*INFO* Parsing control '{}'", bits[0]);
-- 
2.43.0


From c4e94f0e402748c31d9994426829bf5169c22f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 40/44] fix: r8n plotted '3-2-1' as column 3

Only columns and differences of two columns are supported, so say so
instead of plotting something else.
---
 bin/r8n/waveforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/r8n/waveforms.py b/bin/r8n/waveforms.py
index 9742ef2..acf4823 100644
--- a/bin/r8n/waveforms.py
+++ b/bin/r8n/waveforms.py
@@ -25,8 +25,10 @@ def _parse_expr(expr):
 	bits = [b.strip() for b in bits_untrimmed]
 	if len(bits) == 2:
 		return ('-', int(bits[0]), int(bits[1]))
-	else:
+	elif len(bits) == 1:
 		return ('=', int(bits[0]))
+	else:
+		raise ValueError("Unsupported plot expression: '{}'".format(expr))
 
 
 def load(filename, expr=1):
-- 
2.43.0


From 6d677f3e0a51ad6e6d32a8ed696e6be11fdbbde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 41/44] fix: instances whose names only differ by where the
 dots come from shared their nodes

---
 src/expander.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index ffa8421..50afef4 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -37,6 +37,8 @@
 //! hierarchy name stack and expand that subcircuit into the toplevel
 //! clone.
 
+use std::collections::HashSet;
+
 use crate::element::{Element};
 use crate::circuit::{Circuit, Instance};
 use crate::circuit::{NodeId};
@@ -78,7 +80,7 @@ pub fn expand(ckts: &[Circuit]) -> Circuit {
     let hier: Vec<String> = vec![];
 
     trace!("------------------------------------------------");
-    expand_instances(ckts, &mut ckt, 0, &hier);
+    expand_instances(ckts, &mut ckt, 0, &hier, &mut HashSet::new());
     trace!("------------------------------------------------");
 
     renumber_nodes(&mut ckt);
@@ -132,6 +134,7 @@ fn expand_instances(
     ckt: &mut Circuit,
     ckt_id: usize,
     inhier: &[String], // the hierarchy we are working in
+    paths: &mut HashSet<String>, // of the subcircuits expanded so far
 ) {
 
     let mut hier = inhier.to_owned();
@@ -304,7 +307,7 @@ fn expand_instances(
         if inst.subckt == "/device" {
             expand_primitive(ckts, ckt, ckt_id, inst, inhier);
         } else {
-            expand_subckt(ckts, ckt, ckt_id, inst, &hier);
+            expand_subckt(ckts, ckt, ckt_id, inst, &hier, paths);
         }
 
     } // insts
@@ -317,7 +320,8 @@ fn expand_subckt(
     ckt: &mut Circuit,
     host_ckt_id: usize,
     inst: &Instance,
-    inhier: &[String]
+    inhier: &[String],
+    paths: &mut HashSet<String>
 ) {
 
     let mut hier = inhier.to_owned();
@@ -377,8 +381,15 @@ fn expand_subckt(
     }
 
     hier.push(inst.name.to_string()); // inst-name
+
+    // `X1.X2` can be `X2` in `X1`, and something called that: they'd share
+    // their nodes
+    if !paths.insert(hier.join(".")) {
+        panic!("*FATAL* There's another instance called '{}'", hier.join("."));
+    }
+
     expand_sources(ckts, ckt, subckt_id, &hier);
-    expand_instances(ckts, ckt, subckt_id, &hier);
+    expand_instances(ckts, ckt, subckt_id, &hier, paths);
     hier.pop(); // inst-name
 }
 
-- 
2.43.0


From 49503e5fad0ac731ab8133820051dae78e243739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 42/44] fix: an error while the title line is read isn't
 ignored

The rest of the deck was read and simulated as if nothing had happened, and if the
first part of the title was lost with it, the rest of that was taken for an element.
---
 src/spice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index dc9ff90..2ed926f 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -125,7 +125,9 @@ impl Reader {
         };
 
         // first line is a comment and is ignored
-        lines_iter.next();
+        if let Some(title) = lines_iter.next() {
+            title.unwrap(); // unless it can't be read
+        }
 
         for line_wr in lines_iter {
             let bytes = line_wr.unwrap();
-- 
2.43.0


From b0f24abc0ff4ab5a258315a74224b495ad07f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 43/44] fix: a tran command without a start time starts at 0

It took over the start time of an earlier tran command, so the first waveforms of the
analysis were missing.
---
 src/spice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spice.rs b/src/spice.rs
index 2ed926f..e07508f 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -190,6 +190,7 @@ impl Reader {
                     }
                     self.cfg.TSTEP = extract_value(bits[1]).unwrap();
                     self.cfg.TSTOP = extract_value(bits[2]).unwrap();
+                    self.cfg.TSTART = 0.0; // not the one of an earlier command
                     if bits.len() > 3 {
                         self.cfg.TSTART = extract_value(bits[3]).unwrap();
                     }
-- 
2.43.0


From c008b2450c4e96ded24376c47e5eced606154fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 44/44] fix: the cards after a control block without .endc were
 skipped up to the next one

---
 src/spice.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index e07508f..e1c19de 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -202,6 +202,9 @@ impl Reader {
                         self.extract_option(&bits);
                 } else if bits[0] == ".endc" {
                     in_control_block = false;
+                } else if bits[0] == ".control" {
+                    println!("*ERROR* .control in a control block, is there a .endc missing?");
+                    self.there_are_errors = true;
                 } else {
                     println!("*WARN* Ignoring unrecognised command '{}'", bits[0]);
                 }
-- 
2.43.0

