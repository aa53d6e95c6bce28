From 96e9bf739a7b30beae0afb70558363727b4ee6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 01/41] fix: parse lifelines and messages whose name starts
 with 'o'

The empty interaction 'o' was tried before communication actions, so that
'orderer -- m -> x' or 'ok -> x' was cut after its first letter and rejected.
---
 src/io/input/hif/hif_syntax.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hif/hif_syntax.pest b/src/io/input/hif/hif_syntax.pest
index 7050ae4..791ab2f 100644
--- a/src/io/input/hif/hif_syntax.pest
+++ b/src/io/input/hif/hif_syntax.pest
@@ -83,8 +83,7 @@ SD_LOOP = {"loop" ~ (SD_LOOP_KIND_S | SD_LOOP_KIND_H | SD_LOOP_KIND_W | SD_LOOP_
 SD_LOOP_INT = { SD_LOOP ~ "(" ~ SD_INTERACTION ~ ")" }
 
 
-SD_INTERACTION = { SD_EMPTY_INTERACTION
-		| SD_COMMUNICATION_ACTION
+SD_INTERACTION = { SD_COMMUNICATION_ACTION
         | SD_STRICT_INT
         | SD_SEQ_INT
         | SD_COREG_INT
@@ -93,6 +92,7 @@ SD_INTERACTION = { SD_EMPTY_INTERACTION
         | SD_LOOP_INT
         | SD_SYNC_INT
         | SD_AND_INT
+        | SD_EMPTY_INTERACTION
         }
 
 
-- 
2.43.0


From c9da2ed01d46bc9c7ec1378f75c2e5627047ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 02/41] fix: pruning a sync operator during an analysis no
 longer panics

prune_with_affected lacked the Sync case, so that any analysis executing an
action to the right of a sync sub-interaction crashed.
---
 src/core/language/prune/interaction.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/language/prune/interaction.rs b/src/core/language/prune/interaction.rs
index 2eb7e7d..fb3f3f2 100644
--- a/src/core/language/prune/interaction.rs
+++ b/src/core/language/prune/interaction.rs
@@ -201,6 +201,12 @@ impl LifelinePrunable for Interaction {
                     }
                 }
             },
+            Interaction::Sync(_, i1, i2) => {
+                let (_,mut aff1) = i1.prune_with_affected(lf_ids);
+                let (_,aff2) = i2.prune_with_affected(lf_ids);
+                aff1.extend(aff2);
+                return (self.prune(lf_ids),aff1);
+            },
             Interaction::Strict(i1, i2) => {
                 let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
                 let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
-- 
2.43.0


From 862af3c79df13c3b2eb654fdd137333a31920539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 03/41] fix: in an analysis, executing right of a coreg only
 prunes ordered lifelines

The lifelines of the concurrent region were pruned too, which drops
behaviours (or prunes an operand that cannot avoid them).
---
 src/core/execution/semantics/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index ef4547e..f87b703 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -337,7 +337,7 @@ fn execute_interaction_right(my_int : &Interaction,
                 let got_i1;
                 let mut aff1;
                 if lfs_to_prune.len() > 0 {
-                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&tar_lf_ids);
+                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&lfs_to_prune);
                     got_i1 = Agot_i1;
                     aff1 = Aaff1;
                 } else {
-- 
2.43.0


From d17f5194de792ecc98c1379638ef39ecb8a6f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 04/41] fix: match synchronous communications across
 co-localizations

In analyses, a <synch> communication between lifelines that are not
co-localized never matched the logs (each log head was compared with the
whole multi-action), so that accepted multi-traces were failed. A frontier
element now matches when every concerned log head is its projection.
---
 src/process/ana/handling/matches.rs | 43 +++++++++++++++++++----------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 3a6fb43..49d30d2 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -35,6 +35,17 @@ use crate::process::ana::step::{AnalysisStepKind, SimulationStepKind};
 
 use crate::util::powerset::powerset;
 
+/// the actions, among those given, that occur on the lifelines of a given co-localization
+fn get_projection_on_coloc(context : &AnalysisContext,
+                           coloc_id : usize,
+                           target_actions : &BTreeSet<TraceAction>) -> BTreeSet<TraceAction> {
+    let coloc_lf_ids = context.co_localizations.get_coloc_lfs_ids(coloc_id);
+    target_actions.iter()
+        .filter(|tract| coloc_lf_ids.contains(&tract.lf_id))
+        .cloned()
+        .collect()
+}
+
 impl AnalysisParameterization {
 
     pub fn is_ok_to_simulate(&self,
@@ -229,13 +240,6 @@ impl AnalysisParameterization {
                                           context : &AnalysisContext,
                                           interaction : &Interaction,
                                           flags : &MultiTraceAnalysisFlags) -> Vec<AnalysisStepKind> {
-        /**
-         TODO: this new way of computing matches has allowed partial order readuction but it has broken
-         TODO: matching for synchronous communications (e.g., the <synch> keyword)
-         TODO: indeed, we match each individual head action to a frontier element
-         TODO: but with synchronous comm several distinct head actions can be matched together with a single frontier element
-         TODO: a quick fix is easy to do but still needs to be done
-         **/
         // ***
         let mut coloc_ids_to_frontier_elts : HashMap<usize,Vec<FrontierElement>> = hashmap!{};
         let matching_heads : Vec<(usize,&BTreeSet<TraceAction>)> = {
@@ -250,16 +254,27 @@ impl AnalysisParameterization {
                 }
             }
 
-            // iter head actions
+            // iter frontier elements
             for frt_elt in global_frontier(interaction,true) {
-                // iter head actions to look for a match
-                'iter_head : for (coloc_id,head) in head_actions.iter() {
-                    // if there is a match keeps track of frt_elt
-                    if frt_elt.target_actions == **head {
-                        coloc_ids_to_frontier_elts.entry(*coloc_id)
+                // a frontier element matches if, on every co-localization it concerns,
+                // the head multi-action is exactly its projection on that co-localization
+                // (it may concern several co-localizations if the communication is synchronous)
+                let target_colocs : BTreeSet<usize> = context.co_localizations
+                    .get_coloc_ids_from_lf_ids(&frt_elt.target_lf_ids)
+                    .into_iter()
+                    .collect();
+                let is_match = target_colocs.iter().all(|target_id|
+                    head_actions.iter().any(|(coloc_id,head)|
+                        coloc_id == target_id
+                        && **head == get_projection_on_coloc(context,*coloc_id,&frt_elt.target_actions)
+                    )
+                );
+                // if there is a match keeps track of frt_elt
+                if is_match {
+                    if let Some(first_coloc_id) = target_colocs.iter().next() {
+                        coloc_ids_to_frontier_elts.entry(*first_coloc_id)
                             .or_insert_with(Vec::new)
                             .push(frt_elt);
-                        break 'iter_head;
                     }
                 }
             }
-- 
2.43.0


From 80a410a14d3def9f50f6bc49817e66197f813cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 05/41] fix: simulation of synchronous communications over
 several logs

---
 src/process/ana/handling/matches.rs | 45 +++++++----------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 49d30d2..996836a 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -94,26 +94,16 @@ impl AnalysisParameterization {
             let canal_ids_of_targets = context.co_localizations.get_coloc_ids_from_lf_ids(&frt_elt.target_lf_ids);
             // ***
             let mut match_on_canal : Vec<usize> = vec!{}; // ids of the canals on which there is a match
-            let mut ok_canals : HashSet<usize> = hashset!{}; // canals in which we already do something match or simu
             let mut act_left_to_match : HashSet<&TraceAction> = frt_elt.target_actions.iter().collect();
             for (canal_id, canal_flag) in flags.canals.iter().enumerate() {
                 let canal_trace = context.multi_trace.get(canal_id).unwrap();
                 match canal_trace.get(canal_flag.consumed) {
                     None => {},
                     Some( got_multiact ) => {
-                        let mut intersect_with_front_elt = false;
-                        let mut entirely_included_in_front_elt = true;
-                        for got_act in got_multiact {
-                            if act_left_to_match.contains(got_act) {
-                                intersect_with_front_elt = true;
-                            } else {
-                                entirely_included_in_front_elt = false;
-                            }
-                        }
-                        // ***
-                        if intersect_with_front_elt && entirely_included_in_front_elt {
+                        // a match on a canal consumes exactly what the frontier element does on it
+                        let on_canal = get_projection_on_coloc(context,canal_id,&frt_elt.target_actions);
+                        if !on_canal.is_empty() && *got_multiact == on_canal {
                             match_on_canal.push(canal_id );
-                            ok_canals.insert(canal_id);
                             for got_act in got_multiact {
                                 act_left_to_match.remove(got_act);
                             }
@@ -133,28 +123,15 @@ impl AnalysisParameterization {
                     break;
                 }
                 let tract_coloc_id = context.co_localizations.get_lf_coloc_id(tract.lf_id).unwrap();
-                if ok_canals.contains(&tract_coloc_id) {
-                    panic!("an action left to match on a coloc on which we already do some match-execution");
+                let canal_flag : &TraceAnalysisFlags = flags.canals.get(tract_coloc_id).unwrap();
+                let canal_trace = context.multi_trace.get(tract_coloc_id).unwrap();
+                // *
+                if canal_flag.consumed == canal_trace.len() {
+                    to_simulate.insert( tract_coloc_id, SimulationStepKind::AfterEnd);
+                } else if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {
+                    to_simulate.insert(tract_coloc_id,SimulationStepKind::BeforeStart);
                 } else {
-                    let mut gotit = false;
-                    let canal_flag : &TraceAnalysisFlags = flags.canals.get(tract_coloc_id).unwrap();
-                    let canal_trace = context.multi_trace.get(tract_coloc_id).unwrap();
-                    // *
-                    if canal_flag.consumed == canal_trace.len() {
-                        to_simulate.insert( tract_coloc_id, SimulationStepKind::AfterEnd);
-                        gotit = true;
-                        break;
-                    } else {
-                        if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {
-                            to_simulate.insert(tract_coloc_id,SimulationStepKind::BeforeStart);
-                            gotit = true;
-                            break;
-                        }
-                    }
-                    // *
-                    if !gotit {
-                        ok_to_simulate = false;
-                    }
+                    ok_to_simulate = false;
                 }
             }
             // ***
-- 
2.43.0


From c98855edfba93f45c39b62f35a0e9679fd4fc9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:14 +0000
Subject: [PATCH 06/41] fix: a trace generation logger sees every path (no
 memoization)

---
 src/io/input/hcf/ana/options.rs   | 7 +++++++
 src/io/input/hcf/explo/options.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index 9abd205..d8a2411 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -99,12 +99,14 @@ pub fn parse_analyze_options(gen_ctx : &GeneralContext,
         1);
     let mut use_partial_order_reduction = false;
     let mut use_memoization = true;
+    let mut has_tracegen_logger = false;
     let mut goal = Some(AnalysisGlobalVerdict::WeakPass);
     // ***
     for option_decl_pair in option_pair.into_inner() {
         match option_decl_pair.as_rule() {
             Rule::OPTION_LOGGER_DECL => {
                 loggers = Vec::new();
+                has_tracegen_logger = false;
                 // ***
                 let mut logger_id : u32 = 0;
                 for logger_kind_pair in option_decl_pair.into_inner() {
@@ -115,6 +117,7 @@ pub fn parse_analyze_options(gen_ctx : &GeneralContext,
                             loggers.push( Box::new(glogger));
                         },
                         Rule::OPTION_TRACEGEN_LOGGER => {
+                            has_tracegen_logger = true;
                             match parse_tracegen_logger(logger_id, gen_ctx,file_name,logger_kind_pair) {
                                 Err(e) => {
                                     return Err(e);
@@ -288,6 +291,10 @@ pub fn parse_analyze_options(gen_ctx : &GeneralContext,
         None
     };
     let param = AnalysisParameterization::new(ana_kind,locana_param, use_partial_order_reduction);
+    // a trace generator needs to see every path: nodes cannot be merged by the memoization
+    if has_tracegen_logger {
+        use_memoization = false;
+    }
     let hoptions = HibouAnalyzeOptions::new(loggers,strategy,filters,priorities,param,use_memoization,goal);
     return Ok(hoptions);
 }
diff --git a/src/io/input/hcf/explo/options.rs b/src/io/input/hcf/explo/options.rs
index 9efb551..81eced7 100644
--- a/src/io/input/hcf/explo/options.rs
+++ b/src/io/input/hcf/explo/options.rs
@@ -79,11 +79,13 @@ pub fn parse_explore_options(gen_ctx: &GeneralContext,
     let mut filters : Vec<Box<dyn AbstractFilter<ExplorationFilterCriterion,ExplorationFilterEliminationKind>>> = Vec::new();
     let mut priorities : GenericProcessPriorities<ExplorationPriorities> = GenericProcessPriorities::new(ExplorationPriorities::default(),false);
     let mut use_memoization = false;
+    let mut has_tracegen_logger = false;
     // ***
     for option_decl_pair in option_pair.into_inner() {
         match option_decl_pair.as_rule() {
             Rule::OPTION_LOGGER_DECL => {
                 loggers = Vec::new();
+                has_tracegen_logger = false;
                 // ***
                 let mut logger_id : u32 = 0;
                 for logger_kind_pair in option_decl_pair.into_inner() {
@@ -94,6 +96,7 @@ pub fn parse_explore_options(gen_ctx: &GeneralContext,
                             loggers.push( Box::new(glogger));
                         },
                         Rule::OPTION_TRACEGEN_LOGGER => {
+                            has_tracegen_logger = true;
                             match parse_tracegen_logger(logger_id, gen_ctx,file_name,logger_kind_pair) {
                                 Err(e) => {
                                     return Err(e);
@@ -183,6 +186,10 @@ pub fn parse_explore_options(gen_ctx: &GeneralContext,
             }
         }
     }
+    // a trace generator needs to see every path: nodes cannot be merged by the memoization
+    if has_tracegen_logger {
+        use_memoization = false;
+    }
     // ***
     let hoptions = HibouExploreOptions::new(loggers,strategy,filters,priorities,use_memoization);
     return Ok(hoptions);
-- 
2.43.0


From 3200049395d03923a4c33b35bef63d6609c6d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:52 +0000
Subject: [PATCH 07/41] fix: memoization only merges analysis nodes at the same
 position in every log

---
 src/process/ana/node/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index f29a02e..c8c4c13 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -49,7 +49,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
             for idx in 0..self.flags.canals.len() {
                 let my_canal : &TraceAnalysisFlags  = self.flags.canals.get(idx).unwrap();
                 let other_canal : &TraceAnalysisFlags = memoized_node.flags.canals.get(idx).unwrap();
-                if my_canal.consumed > other_canal.consumed {
+                if my_canal.consumed != other_canal.consumed {
                     return false;
                 }
                 if my_canal.simulated_after < other_canal.simulated_after {
@@ -58,7 +58,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
                 if my_canal.simulated_before < other_canal.simulated_before {
                     return false;
                 }
-                if my_canal.no_longer_observed && !other_canal.no_longer_observed {
+                if my_canal.no_longer_observed != other_canal.no_longer_observed {
                     return false;
                 }
             }
-- 
2.43.0


From 77d3f4e5d4cdf2b4393b3917f3d0d3f8832a844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 08/41] fix: simulation without a limit on actions or loops
 does not underflow

---
 src/process/ana/node/flags.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/node/flags.rs b/src/process/ana/node/flags.rs
index fd0413b..f758377 100644
--- a/src/process/ana/node/flags.rs
+++ b/src/process/ana/node/flags.rs
@@ -240,14 +240,14 @@ impl MultiTraceAnalysisFlags {
         // ***
         let rem_loop_in_sim : u32;
         {
-            let removed = self.rem_loop_in_sim - loop_depth;
+            let removed = self.rem_loop_in_sim.saturating_sub(loop_depth);
             let reset = sim_config.get_reset_rem_loop(rem_multitrace_length,new_interaction);
             rem_loop_in_sim = reset.min(removed);
         }
         // ***
         let rem_act_in_sim : u32;
         {
-            let removed = self.rem_act_in_sim - 1;
+            let removed = self.rem_act_in_sim.saturating_sub(1);
             let reset = sim_config.get_reset_rem_act(rem_multitrace_length,new_interaction);
             rem_act_in_sim = reset.min(removed);
         }
-- 
2.43.0


From 97f1589e87b9b342abf863be21c153a74bd8ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 09/41] fix: a bounded simulation does not end with a plain
 Fail

---
 src/ui/commands/cli_analyze.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ui/commands/cli_analyze.rs b/src/ui/commands/cli_analyze.rs
index 046432f..23a124b 100644
--- a/src/ui/commands/cli_analyze.rs
+++ b/src/ui/commands/cli_analyze.rs
@@ -28,6 +28,7 @@ use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::input::htf::interface::parse_htf_file;
 use crate::process::ana::conf::AnalysisConfig;
 use crate::process::ana::context::AnalysisContext;
+use crate::process::ana::verdict::global::AnalysisGlobalVerdict;
 use crate::process::ana::node::flags::MultiTraceAnalysisFlags;
 use crate::process::ana::node::node::AnalysisNodeKind;
 use crate::process::ana::priorities::AnalysisPriorities;
@@ -96,6 +97,7 @@ pub fn cli_analyze(matches : &ArgMatches) -> (Vec<String>,u32) {
                                                                                    sim_config.get_reset_rem_act(multi_trace_length,&int));
                                 }
                             }
+                            let has_simulation = ana_opts.ana_param.ana_kind.has_simulation();
                             let mut analysis_manager : GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(ana_ctx,
                                                                                                                           ana_opts.ana_param,
                                                                                                                                 delegate,
@@ -110,6 +112,12 @@ pub fn cli_analyze(matches : &ArgMatches) -> (Vec<String>,u32) {
                             let now = Instant::now();
                             let (node_count,verdict) = analysis_manager.start_process(init_node);
                             let elapsed_time = now.elapsed();
+                            // a simulation is bounded : not finding anything is never a plain Fail, even if
+                            // no terminal node was met because of the memoization of nodes
+                            let verdict = match verdict {
+                                AnalysisGlobalVerdict::Fail if has_simulation => AnalysisGlobalVerdict::WeakFail,
+                                got => got
+                            };
                             ret_print.push( format!("verdict    : '{}'", verdict.to_string() ) );
                             ret_print.push( format!("node count : {:?}", node_count ) );
                             ret_print.push( format!("elapsed    : {:?}", elapsed_time.as_secs_f64() ) );
-- 
2.43.0


From 4ad15d97c128e80b4daa4b9d65eeb5e770a20127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 10/41] fix: local analysis does not fail slices for lack of a
 local simulation budget

---
 src/process/ana/handling/local_analysis.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/process/ana/handling/local_analysis.rs b/src/process/ana/handling/local_analysis.rs
index 5df5816..c22a281 100644
--- a/src/process/ana/handling/local_analysis.rs
+++ b/src/process/ana/handling/local_analysis.rs
@@ -74,6 +74,14 @@ pub fn is_dead_local_analysis(gen_ctx : &GeneralContext,
                               interaction : &Interaction,
                               multi_trace : &MultiTrace,
                               flags : &mut MultiTraceAnalysisFlags) -> Option<usize> {
+    // when logs are simulated before their start, a local analysis spends the simulation budget otherwise than the
+    // global one does (it neither sees the executions that restore it nor the loops of the other lifelines);
+    // hence, with a limited budget, it proves nothing
+    let (_,sim_crit_loop,sim_crit_act) = parent_analysis_kind.get_sim_crits();
+    if parent_analysis_kind.sim_before() && (sim_crit_loop || sim_crit_act) {
+        return None;
+    }
+    // ***
     'iter_coloc : for (canal_id, colocalized_lfs) in co_localizations.locs_lf_ids.iter().enumerate() {
         let canal_flags: &mut TraceAnalysisFlags = flags.canals.get_mut(canal_id).unwrap();
         let canal_trace: &Trace = multi_trace.get(canal_id).unwrap();
-- 
2.43.0


From fe2a036e19c2cdee2b2a12e1affec667a1df5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 11/41] fix: trace generation at a depth modulo zero does not
 panic

---
 src/loggers/tracegen/printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loggers/tracegen/printer.rs b/src/loggers/tracegen/printer.rs
index 84f313c..8d36d53 100644
--- a/src/loggers/tracegen/printer.rs
+++ b/src/loggers/tracegen/printer.rs
@@ -60,7 +60,7 @@ impl MultiTraceProcessPrinter {
                 depth == exact_depth
             },
             TracegenProcessLoggerGeneration::atDepthModulo(modulo_depth) => {
-                depth % modulo_depth == 0
+                modulo_depth > 0 && depth % modulo_depth == 0
             }
         }
     }
-- 
2.43.0


From 474783dd43e6c20a3eeca9208d483141fa9a1109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 12/41] fix: trace generation on a partition that leaves
 lifelines out

---
 src/io/input/hcf/loggers/tracegen.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 909493e..613e5b8 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -126,6 +126,12 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                             }
                             colocs.push(coloc);
                         }
+                        // as in trace files, each remaining lifeline has its own canal
+                        for lf_id in gen_ctx.get_all_lfs_ids() {
+                            if !got_lfs.contains(&lf_id) {
+                                colocs.push(btreeset!{lf_id});
+                            }
+                        }
                         // ***
                         co_localizations = CoLocalizations::new(colocs);
                     },
-- 
2.43.0


From ed5aa799b8725c075ef36d8d586b9ddbfcd26e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 13/41] fix: trace generation without duplicates still extends
 the traces found twice

---
 src/io/input/hcf/loggers/tracegen.rs      |  5 +++--
 src/loggers/tracegen/printer.rs           | 26 +++++++++++++++++++----
 src/process/ana/loggers/slog/printer.rs   |  3 +++
 src/process/explo/loggers/slog/printer.rs |  3 +++
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 613e5b8..8a6e2da 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -142,9 +142,10 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
             }
         }
     }
-    let printer = MultiTraceProcessPrinter::new(co_localizations,generation);
+    let printer = MultiTraceProcessPrinter::new(co_localizations,generation,no_duplicates_via_memoization);
+    // duplicates are avoided by the printer: the memoizer of the logger would also forget the traces that extend duplicates
     return Ok(GenericStepsTraceLogger::new(Box::new(printer),
-                                           no_duplicates_via_memoization,
+                                           false,
                                            files_prefix,
                                            HIBOU_TRACE_FILE_EXTENSION.to_string(),
                                          parent_folder,
diff --git a/src/loggers/tracegen/printer.rs b/src/loggers/tracegen/printer.rs
index 8d36d53..69fdee0 100644
--- a/src/loggers/tracegen/printer.rs
+++ b/src/loggers/tracegen/printer.rs
@@ -15,7 +15,8 @@ limitations under the License.
 */
 
 
-use std::collections::{BTreeSet, HashMap};
+use std::cell::RefCell;
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 use crate::core::colocalizations::CoLocalizations;
 use crate::core::execution::trace::multitrace::MultiTrace;
@@ -34,12 +35,22 @@ pub enum TracegenProcessLoggerGeneration {
 
 pub struct MultiTraceProcessPrinter {
     pub partition : CoLocalizations,
-    pub tracegen : TracegenProcessLoggerGeneration
+    pub tracegen : TracegenProcessLoggerGeneration,
+    // if duplicates are to be avoided, the multi-traces that have already been printed
+    // (the exploration must continue from them, hence they are only excluded from printing)
+    printed : Option<RefCell<HashSet<TraceGenLoggerObject>>>
 }
 
 impl MultiTraceProcessPrinter {
-    pub fn new(partition: CoLocalizations, tracegen: TracegenProcessLoggerGeneration) -> Self {
-        MultiTraceProcessPrinter { partition, tracegen }
+    pub fn new(partition: CoLocalizations,
+               tracegen: TracegenProcessLoggerGeneration,
+               avoid_duplicates : bool) -> Self {
+        let printed = if avoid_duplicates {
+            Some(RefCell::new(HashSet::new()))
+        } else {
+            None
+        };
+        MultiTraceProcessPrinter { partition, tracegen, printed }
     }
 }
 
@@ -65,6 +76,13 @@ impl MultiTraceProcessPrinter {
         }
     }
 
+    pub(crate) fn is_duplicate(&self, object : &TraceGenLoggerObject) -> bool {
+        match &self.printed {
+            None => false,
+            Some(printed) => !printed.borrow_mut().insert(object.clone())
+        }
+    }
+
     pub(crate) fn get_initial_multi_trace(&self) -> TraceGenLoggerObject {
         let mut mu : MultiTrace = vec![];
         for cl in &self.partition.locs_lf_ids {
diff --git a/src/process/ana/loggers/slog/printer.rs b/src/process/ana/loggers/slog/printer.rs
index 1fdbc3e..b155102 100644
--- a/src/process/ana/loggers/slog/printer.rs
+++ b/src/process/ana/loggers/slog/printer.rs
@@ -66,6 +66,9 @@ impl StepsTraceProcessPrinter<AnalysisConfig,TraceGenLoggerObject> for MultiTrac
                     param: &AnalysisParameterization,
                     object: &TraceGenLoggerObject,
                     path: &Path) {
+        if self.is_duplicate(object) {
+            return;
+        }
         write_multi_trace_into_file(path,
                                     &context.gen_ctx,
                                     &self.partition,
diff --git a/src/process/explo/loggers/slog/printer.rs b/src/process/explo/loggers/slog/printer.rs
index 772413c..c7eff3d 100644
--- a/src/process/explo/loggers/slog/printer.rs
+++ b/src/process/explo/loggers/slog/printer.rs
@@ -61,6 +61,9 @@ impl StepsTraceProcessPrinter<ExplorationConfig,TraceGenLoggerObject> for MultiT
                     param: &ExplorationParameterization,
                     object: &TraceGenLoggerObject,
                     path: &Path) {
+        if self.is_duplicate(object) {
+            return;
+        }
         write_multi_trace_into_file(path,
                                     &context.gen_ctx,
                                     &self.partition,
-- 
2.43.0


From a50c51bc14a3d03903f8f86a8e06cbd73556228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 14/41] fix: option spellings hidden behind a shorter one
 (nfait, parent_folder, modulo_each_X_steps, search_all=false)

---
 src/io/input/hcf/hcf_syntax.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index a3b57d1..386c2fe 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -42,7 +42,7 @@ GRAPHIC_LOGGER_draw_term_tree = { "draw_tt" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_sub_processes = { "draw_sub_processes" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_legend = { "draw_legend" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 
-GRAPHIC_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+GRAPHIC_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 GRAPHIC_LOGGER_output_file = { ("output"|"name") ~ "=" ~ HIBOU_LABEL }
 
 GRAPHIC_LOGGER_opt = _{ GRAPHIC_LOGGER_format
@@ -71,7 +71,7 @@ TRACEGEN_LOGGER_partition_trivial = { "trivial" }
 TRACEGEN_LOGGER_partition_specific = { "{" ~ HIBOU_LABEL_LIST ~ ("," ~ HIBOU_LABEL_LIST)*  ~ "}" }
 TRACEGEN_LOGGER_partition = _{ "partition" ~ "=" ~ (TRACEGEN_LOGGER_partition_discrete | TRACEGEN_LOGGER_partition_trivial | TRACEGEN_LOGGER_partition_specific) }
 
-TRACEGEN_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+TRACEGEN_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_trace_prefix = { ("name_prefix"|"trace_prefix"|"prefix") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_no_duplicate = { ("avoid_duplicates"|"prevent_duplicates"|"no_duplicates") ~ "=" ~ (HIBOU_true|HIBOU_false) }
 
@@ -84,7 +84,7 @@ TRACEGEN_LOGGER_opt = _{ TRACEGEN_LOGGER_gen_kind
 TRACEGEN_LOGGER_opts = { "[" ~ TRACEGEN_LOGGER_opt ~ ("," ~ TRACEGEN_LOGGER_opt)* ~ (",")? ~ "]" }
 OPTION_TRACEGEN_LOGGER = { "tracegen" ~ TRACEGEN_LOGGER_opts? }
 
-OPTION_NFAIT_LOGGER = { "nfa" | "nfait" }
+OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 
 // ***
 
@@ -200,7 +200,7 @@ OPTION_GOAL_KIND = _{ OPTION_GOAL_pass | OPTION_GOAL_weakpass | HIBOU_none }
 OPTION_GOAL_DECL = { "goal" ~ "=" ~ OPTION_GOAL_KIND }
 // ***********************************************
 OPTION_LOCANA_depth = { ("max_look_ahead_depth" | "max"~"depth" | "lookahead" | "lookup") ~ "=" ~ (HIBOU_none | ARITH_INTEGER)}
-OPTION_LOCANA_modulo = { ("modulo" | "modulo_each_X_steps") ~ "=" ~ ARITH_INTEGER}
+OPTION_LOCANA_modulo = { ("modulo_each_X_steps" | "modulo") ~ "=" ~ ARITH_INTEGER}
 OPTION_LOCANA_select_all = { "all" | "All" | "ALL" }
 OPTION_LOCANA_select_dirty = { "dirty" | "Dirty" | "DIRTY" }
 OPTION_LOCANA_select = { "select" ~ "=" ~ (OPTION_LOCANA_select_all|OPTION_LOCANA_select_dirty) }
@@ -227,7 +227,7 @@ ANALYZE_OPTION_SECTION =  { "@analyze_option" ~ "{" ~
 
 OPTION_CANON_searchall_yes = { "search_all" ~ ("=" ~ HIBOU_true)? }
 OPTION_CANON_searchall_no = { "search_all" ~ "=" ~ HIBOU_false }
-OPTION_CANON_searchall = _{ OPTION_CANON_searchall_yes | OPTION_CANON_searchall_no }
+OPTION_CANON_searchall = _{ OPTION_CANON_searchall_no | OPTION_CANON_searchall_yes }
 // ***
 CANONIZE_OPTION_DECL = _{ GENERAL_OPTION_DECL
                             | OPTION_CANON_searchall }
-- 
2.43.0


From f40530816fe33c9fffc323827a001d496dc379f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:13 +0000
Subject: [PATCH 15/41] fix: automata know the simultaneous actions of
 synchronous communications as letters

---
 src/nfa_translation/alphabet.rs            | 46 +++++++++++++++++++++-
 src/nfa_translation/experiments.rs         |  4 +-
 src/nfa_translation/get_nfa_from_logger.rs | 16 ++++++--
 src/ui/commands/cli_glosem.rs              |  6 +--
 src/ui/commands/cli_nfa_ana.rs             |  6 +--
 5 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/src/nfa_translation/alphabet.rs b/src/nfa_translation/alphabet.rs
index 88ba4d4..754d785 100644
--- a/src/nfa_translation/alphabet.rs
+++ b/src/nfa_translation/alphabet.rs
@@ -17,7 +17,10 @@ limitations under the License.
 
 use std::collections::BTreeSet;
 use crate::core::general_context::GeneralContext;
+use crate::core::execution::trace::from_model::from_model::PrimitiveInterpretableAsTraceAction;
 use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
+use crate::core::language::syntax::action::CommunicationSynchronicity;
+use crate::core::language::syntax::interaction::Interaction;
 
 pub fn get_alphabet_from_gen_ctx(gen_ctx : &GeneralContext) -> Vec<BTreeSet<TraceAction>> {
     let mut alphabet = vec![];
@@ -28,4 +31,45 @@ pub fn get_alphabet_from_gen_ctx(gen_ctx : &GeneralContext) -> Vec<BTreeSet<Trac
         }
     }
     alphabet
-}
\ No newline at end of file
+}
+
+/// the alphabet of the signature and the simultaneous actions of the synchronous communications of the interaction
+pub fn get_alphabet_from_interaction(gen_ctx : &GeneralContext, int : &Interaction) -> Vec<BTreeSet<TraceAction>> {
+    let mut alphabet = get_alphabet_from_gen_ctx(gen_ctx);
+    add_synchronous_communications(&mut alphabet, int);
+    alphabet
+}
+
+fn add_synchronous_communications(alphabet : &mut Vec<BTreeSet<TraceAction>>, int : &Interaction) {
+    let mut add = |actions : BTreeSet<TraceAction>| {
+        if !actions.is_empty() && !alphabet.contains(&actions) {
+            alphabet.push(actions);
+        }
+    };
+    match int {
+        Interaction::Empty => {},
+        Interaction::Emission(em_act) => {
+            if em_act.synchronicity == CommunicationSynchronicity::Synchronous {
+                add(em_act.get_all_atomic_actions());
+            }
+        },
+        Interaction::Reception(rc_act) => {
+            if rc_act.synchronicity == CommunicationSynchronicity::Synchronous {
+                add(rc_act.get_all_atomic_actions());
+            }
+        },
+        Interaction::Strict(i1,i2)
+        | Interaction::Seq(i1,i2)
+        | Interaction::CoReg(_,i1,i2)
+        | Interaction::Alt(i1,i2)
+        | Interaction::Par(i1,i2)
+        | Interaction::Sync(_,i1,i2)
+        | Interaction::And(i1,i2) => {
+            add_synchronous_communications(alphabet,i1);
+            add_synchronous_communications(alphabet,i2);
+        },
+        Interaction::Loop(_,i1) => {
+            add_synchronous_communications(alphabet,i1);
+        }
+    }
+}
diff --git a/src/nfa_translation/experiments.rs b/src/nfa_translation/experiments.rs
index 78fd324..922f505 100644
--- a/src/nfa_translation/experiments.rs
+++ b/src/nfa_translation/experiments.rs
@@ -22,7 +22,7 @@ use autour_core::traits::transform::AutTransformable;
 use autour_core::traits::translate::AutTranslatable;
 use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::interaction::Interaction;
-use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
+use crate::nfa_translation::alphabet::get_alphabet_from_interaction;
 use crate::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
 use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
 
@@ -66,7 +66,7 @@ pub fn run_nfa_generation_experiment(int : Interaction,
                                      num_tries_for_median : u32,
                                      state_lim : usize) -> NfaGenerationExperimentResults {
 
-    let alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+    let alphabet = get_alphabet_from_interaction(&gen_ctx,&int);
 
     let mut nfa_operational = AutNFA::new_void_object(hashset!{0});
     let mut nfa_operational_times = vec![];
diff --git a/src/nfa_translation/get_nfa_from_logger.rs b/src/nfa_translation/get_nfa_from_logger.rs
index 0caa60c..2d138b3 100644
--- a/src/nfa_translation/get_nfa_from_logger.rs
+++ b/src/nfa_translation/get_nfa_from_logger.rs
@@ -42,8 +42,17 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
                                             int : &Interaction,
                                             base_alphabet : Vec<BTreeSet<TraceAction>>)
             -> (AutNFA<usize>,Duration) {
+    let (nfa,elapsed,_) = get_nfa_and_letters_from_interaction_exploration(gen_ctx,int,base_alphabet);
+    (nfa,elapsed)
+}
+
+/// also returns the actions which the letters of the automaton stand for i.e. the base alphabet
+/// and the simultaneous actions which the exploration came across
+pub fn get_nfa_and_letters_from_interaction_exploration(gen_ctx : &GeneralContext,
+                                                        int : &Interaction,
+                                                        base_alphabet : Vec<BTreeSet<TraceAction>>)
+            -> (AutNFA<usize>,Duration,Vec<BTreeSet<TraceAction>>) {
 
-    let usize_alphabet : HashSet<usize> = (0..base_alphabet.len()).collect();
     let max_loop_depth = int.total_loop_num()*2;
     let nfa_logger = GenericNFAITLogger::new(
         ActionNFAITPrinter::new(base_alphabet,
@@ -78,9 +87,10 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
         raw_logger.as_any().downcast_ref::<GenericNFAITLogger<ExplorationConfig,usize,ActionNFAITPrinter>>().unwrap();
     // ***
     let mut nfa = nfa_logger.get_nfait().to_nfa();
-    let printer = nfa_logger.builder_printer.clone();
+    let letters = nfa_logger.builder_printer.index_to_action_map.clone();
     // ***
+    let usize_alphabet : HashSet<usize> = (0..letters.len()).collect();
     nfa.alphabet = usize_alphabet;
     // ***
-    return (nfa, elapsed_get_nfa);
+    return (nfa, elapsed_get_nfa, letters);
 }
\ No newline at end of file
diff --git a/src/ui/commands/cli_glosem.rs b/src/ui/commands/cli_glosem.rs
index 1380d4a..19f2ab1 100644
--- a/src/ui/commands/cli_glosem.rs
+++ b/src/ui/commands/cli_glosem.rs
@@ -36,7 +36,7 @@ use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
 use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
 use crate::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
-use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
+use crate::nfa_translation::get_nfa_from_logger::get_nfa_and_letters_from_interaction_exploration;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
 
@@ -77,12 +77,12 @@ pub fn cli_glosem(matches : &ArgMatches) -> (Vec<String>,u32) {
                         }
                     }
 
-                    let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
+                    let (nfa,elapsed_get_nfa,letters) = get_nfa_and_letters_from_interaction_exploration(
                         &gen_ctx,
                         &int,
                         get_alphabet_from_gen_ctx(&gen_ctx));
 
-                    let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
+                    let printer = ActionNFAITPrinter::new(letters,gen_ctx);
 
                     let mut ret_print = vec![];
                     // ***
diff --git a/src/ui/commands/cli_nfa_ana.rs b/src/ui/commands/cli_nfa_ana.rs
index eb34da5..6d41844 100644
--- a/src/ui/commands/cli_nfa_ana.rs
+++ b/src/ui/commands/cli_nfa_ana.rs
@@ -49,7 +49,7 @@ use crate::io::input::hif::interface::parse_hif_file;
 use crate::io::input::htf::interface::parse_htf_file;
 use crate::io::output::draw_interactions::interface::{draw_interaction, InteractionGraphicalRepresentation};
 use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
-use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
+use crate::nfa_translation::get_nfa_from_logger::get_nfa_and_letters_from_interaction_exploration;
 use crate::process::explo::loggers::nfait::printer::ActionNFAITPrinter;
 
 
@@ -83,12 +83,12 @@ pub fn cli_nfa_ana(matches : &ArgMatches) -> (Vec<String>,u32) {
                             }
                             let trace = multi_trace.remove(0);
 
-                            let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
+                            let (nfa,elapsed_get_nfa,letters) = get_nfa_and_letters_from_interaction_exploration(
                                 &gen_ctx,
                                 &int,
                                 get_alphabet_from_gen_ctx(&gen_ctx));
 
-                            let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
+                            let printer = ActionNFAITPrinter::new(letters,gen_ctx);
 
                             if matches.is_present("draw_transformation") {
                                 let int_name = format!("{}_int",file_name);
-- 
2.43.0


From ce0316ff4a496148b49b85c7942ad46d12240874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:15 +0000
Subject: [PATCH 16/41] fix: the metrics of the minimal DFA are those of the
 minimized automaton

---
 src/ui/commands/cli_get_metrics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_get_metrics.rs b/src/ui/commands/cli_get_metrics.rs
index 705c52c..20df63b 100644
--- a/src/ui/commands/cli_get_metrics.rs
+++ b/src/ui/commands/cli_get_metrics.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 use autour_core::nfa::nfa::AutNFA;
+use autour_core::traits::transform::AutTransformable;
 use autour_core::traits::translate::AutTranslatable;
 use clap::ArgMatches;
 use crate::core::language::syntax::metrics::InteractionMetrics;
@@ -92,7 +93,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                             let (nfa,_) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                                &int,
                                                                                alphabet.clone());
-                            let dfa = nfa.to_dfa();
+                            let dfa = nfa.to_dfa().minimize();
                             let num_states = dfa.transitions.len();
                             let num_edges = dfa.transitions.iter()
                                 .fold(0,|x,t|
-- 
2.43.0


From 40bfddd28429a818958fff52aa99fbed0bb7b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:22 +0000
Subject: [PATCH 17/41] fix: unfolding actions keeps synchronous communications
 synchronous

---
 src/core/transformation/transfofunc/action.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/transformation/transfofunc/action.rs b/src/core/transformation/transfofunc/action.rs
index 47090c2..73fffa4 100644
--- a/src/core/transformation/transfofunc/action.rs
+++ b/src/core/transformation/transfofunc/action.rs
@@ -49,8 +49,9 @@ pub fn transfo_sort_action_content(interaction : &Interaction) -> Vec<Interactio
 pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
     match interaction {
         &Interaction::Emission(ref em_act) => {
-            if em_act.targets.len() == 0 {
+            if em_act.targets.len() == 0 || em_act.synchronicity == CommunicationSynchronicity::Synchronous {
                 // nothing to transform
+                // (unfolding a synchronous communication would lose the simultaneity of its actions)
                 return vec![];
             } else {
                 let mut gates_targets = vec![];
@@ -98,6 +99,10 @@ pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
                     return vec![];
                 },
                 _ => {
+                    if rc_act.synchronicity == CommunicationSynchronicity::Synchronous {
+                        // unfolding would lose the simultaneity of the receptions
+                        return vec![];
+                    }
                     let mut new_recs = vec![];
                     for rec_lf_id in &rc_act.recipients {
                         new_recs.push(
-- 
2.43.0


From 088f1f6e895f15652f275f9b30a52dc8dea67f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:39 +0000
Subject: [PATCH 18/41] fix: canonization honours its general options or
 reports them instead of panicking

---
 src/io/input/hcf/canon/options.rs | 94 ++++++++++++++++++++++++++++---
 src/ui/commands/cli_canonize.rs   |  2 +-
 2 files changed, 86 insertions(+), 10 deletions(-)

diff --git a/src/io/input/hcf/canon/options.rs b/src/io/input/hcf/canon/options.rs
index f4fbcda..e980091 100644
--- a/src/io/input/hcf/canon/options.rs
+++ b/src/io/input/hcf/canon/options.rs
@@ -24,12 +24,10 @@ use pest::iterators::Pair;
 use crate::core::general_context::GeneralContext;
 use crate::io::input::error::HibouParsingError;
 use crate::io::input::hcf::loggers::graphviz::parse_graphic_logger;
-use crate::io::input::hcf::loggers::tracegen::parse_tracegen_logger;
 
 
 #[allow(unused_imports)]
 use pest::Parser;
-use crate::io::input::hcf::loggers::nfait::parse_nfait_logger;
 #[allow(unused_imports)]
 use crate::io::input::hcf::parser::{HcfParser,Rule};
 use crate::process::canon::conf::CanonizationConfig;
@@ -44,6 +42,7 @@ pub struct HibouCanonizeOptions {
     pub filters : Vec<Box<dyn AbstractFilter<CanonizationFilterCriterion,CanonizationFilterEliminationKind>>>,
     pub priorities : GenericProcessPriorities<CanonizationPriorities>,
     pub search_all : bool,
+    pub use_memoization : bool
 }
 
 
@@ -53,8 +52,9 @@ impl HibouCanonizeOptions {
                strategy : QueueSearchStrategy,
                filters : Vec<Box<dyn AbstractFilter<CanonizationFilterCriterion,CanonizationFilterEliminationKind>>>,
                priorities : GenericProcessPriorities<CanonizationPriorities>,
-           search_all : bool) -> HibouCanonizeOptions {
-        return HibouCanonizeOptions{loggers,strategy,filters,priorities,search_all};
+           search_all : bool,
+           use_memoization : bool) -> HibouCanonizeOptions {
+        return HibouCanonizeOptions{loggers,strategy,filters,priorities,search_all,use_memoization};
     }
 
     pub fn default() -> HibouCanonizeOptions {
@@ -63,7 +63,8 @@ impl HibouCanonizeOptions {
             QueueSearchStrategy::BFS,
             vec![],
             GenericProcessPriorities::new(CanonizationPriorities::default(),false),
-            false
+            false,
+            true
         )
     }
 
@@ -76,7 +77,10 @@ pub fn parse_canonize_options(gen_ctx: &GeneralContext,
                              option_pair : Pair<Rule>,
                              file_name : &str) -> Result<HibouCanonizeOptions,HibouParsingError> {
     let mut loggers : Vec<Box<dyn AbstractProcessLogger<CanonizationConfig>>> = Vec::new();
+    let mut strategy : QueueSearchStrategy = QueueSearchStrategy::BFS;
+    let mut priorities : GenericProcessPriorities<CanonizationPriorities> = GenericProcessPriorities::new(CanonizationPriorities::default(),false);
     let mut search_all = false;
+    let mut use_memoization = true;
     // ***
     for option_decl_pair in option_pair.into_inner() {
         match option_decl_pair.as_rule() {
@@ -97,26 +101,98 @@ pub fn parse_canonize_options(gen_ctx: &GeneralContext,
                             let glogger = parse_graphic_logger(logger_id,file_name,logger_kind_pair);
                             loggers.push( Box::new(glogger));
                         },
+                        Rule::OPTION_TRACEGEN_LOGGER => {
+                            return Err(HibouParsingError::HcfSetupError("found tracegen logger in Canonization".to_string()));
+                        },
+                        Rule::OPTION_NFAIT_LOGGER => {
+                            return Err(HibouParsingError::HcfSetupError("found nfait logger in Canonization".to_string()));
+                        },
                         _ => {
                             panic!("what rule then ? : {:?}", logger_kind_pair.as_rule() );
                         }
                     }
                 }
             },
+            Rule::OPTION_STRATEGY_DECL => {
+                let strategy_pair =  option_decl_pair.into_inner().next().unwrap();
+                match strategy_pair.as_rule() {
+                    Rule::OPTION_STRATEGY_BFS => {
+                        strategy = QueueSearchStrategy::BFS;
+                    },
+                    Rule::OPTION_STRATEGY_DFS => {
+                        strategy = QueueSearchStrategy::DFS;
+                    },
+                    Rule::OPTION_STRATEGY_HCS => {
+                        strategy = QueueSearchStrategy::HCS;
+                    },
+                    _ => {
+                        panic!("what rule then ? : {:?}", strategy_pair.as_rule() );
+                    }
+                }
+            },
+            Rule::OPTION_FILTERS_DECL => {
+                return Err(HibouParsingError::ProcessFilterError("found filters in Canonization".to_string()));
+            },
+            Rule::OPTION_PRIORITIES_DECL => {
+                let inner : Pair<Rule> = option_decl_pair.into_inner().next().unwrap();
+                priorities = parse_priorities(inner)?;
+            },
+            Rule::OPTION_MEMOIZE => {
+                let as_bool_pair = option_decl_pair.into_inner().next().unwrap();
+                match as_bool_pair.as_rule() {
+                    Rule::HIBOU_true => {
+                        use_memoization = true;
+                    },
+                    Rule::HIBOU_false => {
+                        use_memoization = false;
+                    },
+                    _ => {
+                        panic!("what rule then ? : {:?}", as_bool_pair.as_rule() );
+                    }
+                }
+            },
             _ => {
                 panic!("what rule then ? : {:?}", option_decl_pair.as_rule() );
             }
         }
     }
     // ***
-    let strategy : QueueSearchStrategy = QueueSearchStrategy::BFS;
     let filters : Vec<Box<dyn AbstractFilter<CanonizationFilterCriterion,CanonizationFilterEliminationKind>>> = Vec::new();
-    let priorities : GenericProcessPriorities<CanonizationPriorities> = GenericProcessPriorities::new(CanonizationPriorities::default(),false);
-    let hoptions = HibouCanonizeOptions::new(loggers,strategy,filters,priorities,search_all);
+    let hoptions = HibouCanonizeOptions::new(loggers,strategy,filters,priorities,search_all,use_memoization);
     return Ok(hoptions);
 }
 
 
 
 
-
+fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessPriorities<CanonizationPriorities>,HibouParsingError> {
+    let mut randomize : bool = false;
+    // ***
+    for priority_pair in priorities_decl_pair.into_inner() {
+        match priority_pair.as_rule() {
+            Rule::OPTION_PRIORITY_RANDOMIZE => {
+                let bool_pair = priority_pair.into_inner().next().unwrap();
+                match bool_pair.as_rule() {
+                    Rule:: HIBOU_true => {
+                        randomize = true;
+                    },
+                    Rule::HIBOU_false => {
+                        randomize = false;
+                    },
+                    _ => {
+                        panic!("what rule then ? : {:?}", bool_pair.as_rule() );
+                    }
+                }
+            },
+            Rule::OPTION_PRIORITY_SPECIFIC_elt => {
+                // all canonization steps have the same priority
+                return Err(HibouParsingError::ProcessPriorityError(format!("found priority '{}' in Canonization", priority_pair.as_str().trim())));
+            },
+            _ => {
+                panic!("what rule then ? : {:?}", priority_pair.as_rule() );
+            }
+        }
+    }
+    // ***
+    return Ok(GenericProcessPriorities::new(CanonizationPriorities::default(),randomize));
+}
diff --git a/src/ui/commands/cli_canonize.rs b/src/ui/commands/cli_canonize.rs
index 58a2a77..55b37ac 100644
--- a/src/ui/commands/cli_canonize.rs
+++ b/src/ui/commands/cli_canonize.rs
@@ -88,7 +88,7 @@ pub fn cli_canonize(matches : &ArgMatches) -> (Vec<String>,u32) {
                         canon_opts.filters,
                         canon_opts.loggers,
                         None,
-                        true
+                        canon_opts.use_memoization
                     );
                     // ***
                     let init_node = CanonizationNodeKind::new(int,0);
-- 
2.43.0


From da7a521001ebe965c85de7bfedd006f139a2d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:50 +0000
Subject: [PATCH 19/41] fix: the last actions of an asynchronous communication
 are its receptions

---
 src/core/language/syntax/interaction.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index d17ade9..4a71791 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -18,7 +18,7 @@ limitations under the License.
 use std::collections::HashSet;
 use std::hash::Hash;
 use crate::core::execution::trace::trace::TraceAction;
-use crate::core::language::syntax::action::{EmissionAction, ReceptionAction};
+use crate::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
 
 
 #[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord, Hash)]
@@ -53,7 +53,18 @@ impl Interaction {
                 Interaction::Empty
             },
             Interaction::Emission(ref em_act) => {
-                Interaction::Emission(em_act.clone())
+                // in an asynchronous communication the receptions come after the emission
+                let recipients : Vec<usize> = em_act.targets.iter().filter_map(|targ| match targ {
+                    EmissionTargetRef::Lifeline(lf_id) => Some(*lf_id),
+                    EmissionTargetRef::Gate(_) => None
+                }).collect();
+                if em_act.synchronicity == CommunicationSynchronicity::Synchronous || recipients.is_empty() {
+                    Interaction::Emission(em_act.clone())
+                } else {
+                    let receptions = ReceptionAction::new(None,em_act.ms_id,CommunicationSynchronicity::Asynchronous,recipients);
+                    let emission = EmissionAction::new(em_act.origin_lf_id,em_act.ms_id,CommunicationSynchronicity::Asynchronous,vec![]);
+                    Interaction::Strict(Box::new(Interaction::Reception(receptions)),Box::new(Interaction::Emission(emission)))
+                }
             },
             Interaction::Reception(ref rc_act) => {
                 Interaction::Reception(rc_act.clone())
-- 
2.43.0


From d23edafd8e93d1f60747dd3941f7c1d23bb5ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 20/41] fix: the exit status tells whether the command
 succeeded

---
 src/main.rs         | 2 +-
 src/ui/hibou_cli.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 64d2aea..75d8b2f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,5 +49,5 @@ use crate::io::output::draw_interactions::interface::{draw_interaction, Interact
 use crate::ui::hibou_cli::hibou_cli;
 
 fn main() {
-    hibou_cli();
+    std::process::exit(hibou_cli());
 }
diff --git a/src/ui/hibou_cli.rs b/src/ui/hibou_cli.rs
index 0fa015b..db5b923 100644
--- a/src/ui/hibou_cli.rs
+++ b/src/ui/hibou_cli.rs
@@ -124,6 +124,6 @@ pub fn hibou_cli() -> i32 {
     }
     // ***
     print_on_hibou_cli(ret_print);
-    return 0;
+    return ret_code as i32;
 }
 
-- 
2.43.0


From 43285349182b1c6ff27f17d85bf24ad4657759f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 21/41] fix: output files are written completely or the command
 fails

---
 .../draw_interactions/as_sd/interface.rs      |  2 +-
 .../draw_interactions/as_term/interface.rs    |  2 +-
 src/io/output/to_hfiles/interaction/to_hif.rs |  2 +-
 src/io/output/to_hfiles/trace/to_htf.rs       |  2 +-
 src/plantuml/automata_product.rs              | 40 +++++++++----------
 src/plantuml/sequence.rs                      | 40 +++++++++----------
 src/ui/commands/cli_nfa_experiment2.rs        |  2 +-
 7 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/io/output/draw_interactions/as_sd/interface.rs b/src/io/output/draw_interactions/as_sd/interface.rs
index 80d93f0..9f5c23d 100644
--- a/src/io/output/draw_interactions/as_sd/interface.rs
+++ b/src/io/output/draw_interactions/as_sd/interface.rs
@@ -29,7 +29,7 @@ pub fn draw_int_as_sd(gen_ctx : &GeneralContext,
     let output_file_name = format!("{:}.png", output_file_name);
     let output_path : PathBuf = [parent_folder, &output_file_name].iter().collect();
     let image = make_interaction_image(gen_ctx,interaction);
-    image.save(output_path.as_path());
+    image.save(output_path.as_path()).unwrap();
 }
 
 
diff --git a/src/io/output/draw_interactions/as_term/interface.rs b/src/io/output/draw_interactions/as_term/interface.rs
index a0298bb..23aab18 100644
--- a/src/io/output/draw_interactions/as_term/interface.rs
+++ b/src/io/output/draw_interactions/as_term/interface.rs
@@ -41,7 +41,7 @@ pub fn draw_int_as_term(gen_ctx : &GeneralContext,
     let temp_file_name = format!("{:}.dot", output_file_name);
     let temp_path : PathBuf = [temp_folder, &temp_file_name].iter().collect();
     let mut file = File::create(temp_path.as_path()).unwrap();
-    file.write( interaction_gv_repr(gen_ctx,interaction).to_dot_string().as_bytes() );
+    file.write_all( interaction_gv_repr(gen_ctx,interaction).to_dot_string().as_bytes() ).unwrap();
     // ***
     let output_file_name = format!("{:}.png", output_file_name);
     let output_path : PathBuf = [parent_folder, &output_file_name].iter().collect();
diff --git a/src/io/output/to_hfiles/interaction/to_hif.rs b/src/io/output/to_hfiles/interaction/to_hif.rs
index a3422f1..c925136 100644
--- a/src/io/output/to_hfiles/interaction/to_hif.rs
+++ b/src/io/output/to_hfiles/interaction/to_hif.rs
@@ -34,5 +34,5 @@ pub fn interaction_to_hif(file_path : &Path,
                           gen_ctx : &GeneralContext,
                           interaction : &Interaction) {
     let mut file = File::create(file_path).unwrap();
-    file.write(interaction_as_hif_encoding(gen_ctx,&interaction).as_bytes() );
+    file.write_all( interaction_as_hif_encoding(gen_ctx,&interaction).as_bytes() ).unwrap();
 }
\ No newline at end of file
diff --git a/src/io/output/to_hfiles/trace/to_htf.rs b/src/io/output/to_hfiles/trace/to_htf.rs
index 2b1c112..db6bda3 100644
--- a/src/io/output/to_hfiles/trace/to_htf.rs
+++ b/src/io/output/to_hfiles/trace/to_htf.rs
@@ -33,7 +33,7 @@ pub fn write_multi_trace_into_file(file_path : &Path,
                                    co_localizations : &CoLocalizations,
                                    multi_trace : &MultiTrace) {
     let mut file = File::create(file_path).unwrap();
-    file.write(multi_trace_as_htf_encoding(gen_ctx,co_localizations,multi_trace).as_bytes() );
+    file.write_all( multi_trace_as_htf_encoding(gen_ctx,co_localizations,multi_trace).as_bytes() ).unwrap();
 }
 
 
diff --git a/src/plantuml/automata_product.rs b/src/plantuml/automata_product.rs
index 15d67d6..4bf3a8d 100644
--- a/src/plantuml/automata_product.rs
+++ b/src/plantuml/automata_product.rs
@@ -28,19 +28,19 @@ pub fn to_plant_uml_ap(output_path : &String,
                        interaction : &Interaction,
                        gen_ctx : &GeneralContext) {
     let mut output_file = File::create(output_path).unwrap();
-    output_file.write( "@startuml\n".as_bytes() );
+    output_file.write_all( "@startuml\n".as_bytes() ).unwrap();
     // ***
     for lf_id in 0..gen_ctx.get_lf_num() {
         let lf_name = gen_ctx.get_lf_name(lf_id).unwrap();
         let mut lfs_to_remove : BTreeSet<usize> = (0..(gen_ctx.get_lf_num())).collect();
         lfs_to_remove.remove(&lf_id);
         let projected_int = interaction.eliminate_lifelines(&lfs_to_remove);
-        output_file.write( format!("state lf_{} {{\n",lf_name).as_bytes() );
+        output_file.write_all( format!("state lf_{} {{\n",lf_name).as_bytes() ).unwrap();
         let (last_state_id,_) = to_plant_uml_ap_rec(&mut output_file, &projected_int, gen_ctx, lf_id, 0, 1);
-        output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last_state_id).as_bytes() );
-        output_file.write( "}\n".as_bytes() );
+        output_file.write_all( format!("lf{}_s{} --> [*]\n",lf_id,last_state_id).as_bytes() ).unwrap();
+        output_file.write_all( "}\n".as_bytes() ).unwrap();
     }
-    output_file.write( "@enduml\n".as_bytes() );
+    output_file.write_all( "@enduml\n".as_bytes() ).unwrap();
 }
 
 fn to_plant_uml_ap_rec(output_file : &mut File,
@@ -61,7 +61,7 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
                     let transition_label = format!("!{}",ms_name);
                     let new_state_label = format!("lf{}_s{}",lf_id,state_count);
                     let last_state_label = get_last_label(lf_id, last_state);
-                    output_file.write( format!("{} --> {} : {}\n",last_state_label,new_state_label,transition_label).as_bytes() );
+                    output_file.write_all( format!("{} --> {} : {}\n",last_state_label,new_state_label,transition_label).as_bytes() ).unwrap();
                     return (state_count,state_count + 1);
                 },
                 _ => {
@@ -74,7 +74,7 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             let transition_label = format!("?{}",ms_name);
             let new_state_label = format!("lf{}_s{}",lf_id,state_count);
             let last_state_label = get_last_label(lf_id, last_state);
-            output_file.write( format!("{} --> {} : {}\n",last_state_label,new_state_label,transition_label).as_bytes() );
+            output_file.write_all( format!("{} --> {} : {}\n",last_state_label,new_state_label,transition_label).as_bytes() ).unwrap();
             return (state_count,state_count + 1);
         },
         &Interaction::Seq(ref i1, ref i2) => {
@@ -93,8 +93,8 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             let fork_label = format!("lf{}_s{}", lf_id, fork_id);
             let last_state_label = get_last_label(lf_id, last_state);
             // ***
-            output_file.write(format!("state {} <<fork>>\n", fork_label).as_bytes());
-            output_file.write(format!("{} --> {}\n", last_state_label, fork_label).as_bytes());
+            output_file.write_all( format!("state {} <<fork>>\n", fork_label).as_bytes() ).unwrap();
+            output_file.write_all( format!("{} --> {}\n", last_state_label, fork_label).as_bytes() ).unwrap();
             // ***
             let mut par_frags = get_recursive_par_frags(i1);
             par_frags.extend_from_slice(&mut get_recursive_par_frags(i2));
@@ -110,9 +110,9 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             new_state_count = new_state_count +1;
             let join_label = format!("lf{}_s{}", lf_id,join_id);
             // ***
-            output_file.write(format!("state {} <<join>>\n",join_label).as_bytes());
+            output_file.write_all( format!("state {} <<join>>\n",join_label).as_bytes() ).unwrap();
             for last_in_frag in last_on_branches {
-                output_file.write(format!("lf{}_s{} --> {}\n",lf_id,last_in_frag, join_label).as_bytes());
+                output_file.write_all( format!("lf{}_s{} --> {}\n",lf_id,last_in_frag, join_label).as_bytes() ).unwrap();
             }
             return (join_id,new_state_count);
         },
@@ -124,8 +124,8 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             let fork_label = format!("lf{}_s{}", lf_id, fork_id);
             let last_state_label = get_last_label(lf_id, last_state);
             // ***
-            output_file.write(format!("state {} <<choice>>\n", fork_label).as_bytes());
-            output_file.write(format!("{} --> {}\n", last_state_label, fork_label).as_bytes());
+            output_file.write_all( format!("state {} <<choice>>\n", fork_label).as_bytes() ).unwrap();
+            output_file.write_all( format!("{} --> {}\n", last_state_label, fork_label).as_bytes() ).unwrap();
             // ***
             let mut alt_frags = get_recursive_alt_frags(i1);
             alt_frags.extend_from_slice(&mut get_recursive_alt_frags(i2));
@@ -141,9 +141,9 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             new_state_count = new_state_count +1;
             let join_label = format!("lf{}_s{}", lf_id,join_id);
             // ***
-            output_file.write(format!("state {} <<choice>>\n",join_label).as_bytes());
+            output_file.write_all( format!("state {} <<choice>>\n",join_label).as_bytes() ).unwrap();
             for last_in_frag in last_on_branches {
-                output_file.write(format!("lf{}_s{} --> {}\n",lf_id,last_in_frag, join_label).as_bytes());
+                output_file.write_all( format!("lf{}_s{} --> {}\n",lf_id,last_in_frag, join_label).as_bytes() ).unwrap();
             }
             return (join_id,new_state_count);
         },
@@ -155,15 +155,15 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             let loop_label = format!("lf{}_s{}", lf_id, loop_id);
             let last_state_label = get_last_label(lf_id, last_state);
             // ***
-            output_file.write(format!("state {} {{\n", loop_label).as_bytes());
+            output_file.write_all( format!("state {} {{\n", loop_label).as_bytes() ).unwrap();
             // ***
             let (last,count) =  to_plant_uml_ap_rec(output_file, i1, gen_ctx, lf_id, 0, new_state_count);
             new_state_count = count;
-            output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last).as_bytes() );
+            output_file.write_all( format!("lf{}_s{} --> [*]\n",lf_id,last).as_bytes() ).unwrap();
             // ***
-            output_file.write( "}\n".as_bytes() );
-            output_file.write(format!("{} --> {}\n", last_state_label, loop_label).as_bytes());
-            output_file.write(format!("{} --> {}\n", loop_label, loop_label).as_bytes());
+            output_file.write_all( "}\n".as_bytes() ).unwrap();
+            output_file.write_all( format!("{} --> {}\n", last_state_label, loop_label).as_bytes() ).unwrap();
+            output_file.write_all( format!("{} --> {}\n", loop_label, loop_label).as_bytes() ).unwrap();
             return (loop_id,new_state_count);
         },
         &Interaction::CoReg(_,_,_) => {
diff --git a/src/plantuml/sequence.rs b/src/plantuml/sequence.rs
index 9e3df57..29ffedd 100644
--- a/src/plantuml/sequence.rs
+++ b/src/plantuml/sequence.rs
@@ -27,12 +27,12 @@ pub fn to_plant_uml_sd(output_path : &String,
                        interaction : &Interaction,
                        gen_ctx : &GeneralContext) {
     let mut output_file = File::create(output_path).unwrap();
-    output_file.write( "@startuml\n".as_bytes() );
+    output_file.write_all( "@startuml\n".as_bytes() ).unwrap();
     //output_file.write( "title-".as_bytes() );
     //output_file.write( title.as_bytes() );
     //output_file.write( "\n".as_bytes() );
     to_plant_uml_sd_rec(&mut output_file, interaction, gen_ctx);
-    output_file.write( "@enduml\n".as_bytes() );
+    output_file.write_all( "@enduml\n".as_bytes() ).unwrap();
 }
 
 fn to_plant_uml_sd_rec(output_file : &mut File,
@@ -46,7 +46,7 @@ fn to_plant_uml_sd_rec(output_file : &mut File,
                 1 => {
                     let lf_id = rc_act.recipients.get(0).unwrap();
                     let lf_name = gen_ctx.get_lf_name(*lf_id).unwrap();
-                    output_file.write( format!("->{} : {}\n", &lf_name, &ms_name).as_bytes() );
+                    output_file.write_all( format!("->{} : {}\n", &lf_name, &ms_name).as_bytes() ).unwrap();
                 },
                 _ => {
                     panic!("translation towards puml-sd does not implement broadcasts");
@@ -58,17 +58,17 @@ fn to_plant_uml_sd_rec(output_file : &mut File,
             let lf_name = gen_ctx.get_lf_name(em_act.origin_lf_id).unwrap();
             match em_act.targets.len() {
                 0 => {
-                    output_file.write( format!("{}-> : {}\n", &lf_name, &ms_name).as_bytes() );
+                    output_file.write_all( format!("{}-> : {}\n", &lf_name, &ms_name).as_bytes() ).unwrap();
                 },
                 1 => {
                     let target_ref = em_act.targets.get(0).unwrap();
                     match target_ref {
                         EmissionTargetRef::Gate(_) => {
-                            output_file.write( format!("{}->] : {}\n", &lf_name, &ms_name).as_bytes() );
+                            output_file.write_all( format!("{}->] : {}\n", &lf_name, &ms_name).as_bytes() ).unwrap();
                         },
                         EmissionTargetRef::Lifeline(tar_lf_id) => {
                             let tar_lf_name = gen_ctx.get_lf_name(*tar_lf_id).unwrap();
-                            output_file.write( format!("{}->{} : {}\n", &lf_name, &tar_lf_name, &ms_name).as_bytes() );
+                            output_file.write_all( format!("{}->{} : {}\n", &lf_name, &tar_lf_name, &ms_name).as_bytes() ).unwrap();
                         }
                     }
                 },
@@ -85,65 +85,65 @@ fn to_plant_uml_sd_rec(output_file : &mut File,
             let mut strict_frags = get_recursive_strict_frags(i1);
             strict_frags.extend_from_slice(&mut get_recursive_strict_frags(i2));
             // ***
-            output_file.write( "group strict\n".as_bytes() );
+            output_file.write_all( "group strict\n".as_bytes() ).unwrap();
             let mut rem = strict_frags.len();
             for frag in strict_frags {
                 to_plant_uml_sd_rec(output_file, frag, gen_ctx);
                 rem = rem - 1;
                 if rem > 0 {
-                    output_file.write( "else\n".as_bytes() );
+                    output_file.write_all( "else\n".as_bytes() ).unwrap();
                 }
             }
-            output_file.write( "end\n".as_bytes() );
+            output_file.write_all( "end\n".as_bytes() ).unwrap();
         },
         &Interaction::Par(ref i1, ref i2) => {
             let mut par_frags = get_recursive_par_frags(i1);
             par_frags.extend_from_slice(&mut get_recursive_par_frags(i2));
             // ***
-            output_file.write( "group par\n".as_bytes() );
+            output_file.write_all( "group par\n".as_bytes() ).unwrap();
             let mut rem = par_frags.len();
             for frag in par_frags {
                 to_plant_uml_sd_rec(output_file, frag, gen_ctx);
                 rem = rem - 1;
                 if rem > 0 {
-                    output_file.write( "else\n".as_bytes() );
+                    output_file.write_all( "else\n".as_bytes() ).unwrap();
                 }
             }
-            output_file.write( "end\n".as_bytes() );
+            output_file.write_all( "end\n".as_bytes() ).unwrap();
         },
         &Interaction::Alt(ref i1, ref i2) => {
             let mut alt_frags = get_recursive_alt_frags(i1);
             alt_frags.extend_from_slice(&mut get_recursive_alt_frags(i2));
             // ***
-            output_file.write( "alt\n".as_bytes() );
+            output_file.write_all( "alt\n".as_bytes() ).unwrap();
             let mut rem = alt_frags.len();
             for frag in alt_frags {
                 to_plant_uml_sd_rec(output_file, frag, gen_ctx);
                 rem = rem - 1;
                 if rem > 0 {
-                    output_file.write( "else\n".as_bytes() );
+                    output_file.write_all( "else\n".as_bytes() ).unwrap();
                 }
             }
-            output_file.write( "end\n".as_bytes() );
+            output_file.write_all( "end\n".as_bytes() ).unwrap();
         },
         &Interaction::Loop(ref kind, ref i1) => {
             // ***
             match kind {
                 &LoopKind::SStrictSeq => {
-                    output_file.write( "group loopX\n".as_bytes() );
+                    output_file.write_all( "group loopX\n".as_bytes() ).unwrap();
                 },
                 &LoopKind::HHeadFirstWS => {
-                    output_file.write( "group loopH\n".as_bytes() );
+                    output_file.write_all( "group loopH\n".as_bytes() ).unwrap();
                 },
                 &LoopKind::WWeakSeq => {
-                    output_file.write( "group loopS\n".as_bytes() );
+                    output_file.write_all( "group loopS\n".as_bytes() ).unwrap();
                 },
                 &LoopKind::PInterleaving => {
-                    output_file.write( "group loopP\n".as_bytes() );
+                    output_file.write_all( "group loopP\n".as_bytes() ).unwrap();
                 }
             }
             to_plant_uml_sd_rec(output_file, i1, gen_ctx);
-            output_file.write( "end\n".as_bytes() );
+            output_file.write_all( "end\n".as_bytes() ).unwrap();
         },
         &Interaction::CoReg(_,_,_) => {
             panic!("translation towards puml-sd does not implement co-regions");
diff --git a/src/ui/commands/cli_nfa_experiment2.rs b/src/ui/commands/cli_nfa_experiment2.rs
index 3ffcdad..39e253e 100644
--- a/src/ui/commands/cli_nfa_experiment2.rs
+++ b/src/ui/commands/cli_nfa_experiment2.rs
@@ -130,7 +130,7 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                                                              seed);
 
             let mut file = File::create(output_file_name.clone()).unwrap();
-            file.write(csv_results.as_bytes() );
+            file.write_all( csv_results.as_bytes() ).unwrap();
 
             let mut ret_print = vec![];
             ret_print.push( "generated incremental and compositional NFAs from interactions".to_string());
-- 
2.43.0


From 039e0aad1115440296bf22e61c2304d442a081fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 22/41] fix: noise is inserted at most once per component when
 requested, and anywhere in it

---
 src/trace_manip/mutate/insert_noise.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index ba59ec5..17a7a09 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -20,7 +20,6 @@ use std::fs;
 use std::path::PathBuf;
 use rand::Rng;
 use rand::rngs::ThreadRng;
-use rand::seq::SliceRandom;
 use rand::distributions::{Distribution, Uniform};
 use crate::core::colocalizations::CoLocalizations;
 use crate::core::execution::trace::multitrace::{MultiTrace, Trace};
@@ -92,9 +91,14 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
                                    one_per_compo_max : bool,
                                    only_at_end : bool) -> MultiTrace {
     // ***
+    if multi_trace.is_empty() || gen_ctx.get_ms_num() == 0 {
+        // there is nowhere to insert, or nothing
+        return multi_trace.clone();
+    }
+    // ***
     let mut rem_num_inserts : u32;
     if one_per_compo_max {
-        rem_num_inserts = max_num_inserts.max(multi_trace.len() as u32);
+        rem_num_inserts = max_num_inserts.min(multi_trace.len() as u32);
     } else {
         rem_num_inserts = max_num_inserts;
     }
@@ -109,6 +113,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
         if one_per_compo_max && seen_colocs.contains(&coloc_id) {
             // nothing
         } else {
+            seen_colocs.insert(coloc_id);
             let component : &mut Trace = mutated_mt.get_mut(coloc_id).unwrap();
             let to_insert = generate_random_action_on_coloc(&mut rng,gen_ctx,co_localizations.get_coloc_lfs_ids(coloc_id));
             if only_at_end {
@@ -125,14 +130,9 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
 
 
 fn mutate_vector_by_insert<T>(rng : &mut ThreadRng, vector : &mut Vec<T>, to_insert : T) {
-    let vec_length = vector.len();
-    if vec_length > 0 {
-        let mut vec_indices : Vec<usize> = (0..vec_length).collect();
-        vec_indices.shuffle(rng);
-        vector.insert(*vec_indices.get(0).unwrap(), to_insert);
-    } else {
-        vector.push(to_insert);
-    }
+    // before any element or at the end
+    let rng_indices = Uniform::from(0..(vector.len()+1) );
+    vector.insert(rng_indices.sample(rng), to_insert);
 }
 
 
-- 
2.43.0


From 36b819d8573b873a42b7950bdcbe983942f80260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 23/41] fix: at most the requested number of components is
 swapped

---
 src/trace_manip/mutate/swap_component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/swap_component.rs b/src/trace_manip/mutate/swap_component.rs
index 5830160..034d7f0 100644
--- a/src/trace_manip/mutate/swap_component.rs
+++ b/src/trace_manip/mutate/swap_component.rs
@@ -65,7 +65,7 @@ fn mutate_by_swapping_components(multi_trace_1 : &MultiTrace, multi_trace_2 : &M
     let mut compos_indices : Vec<usize> = (0..(num_compos as usize)).collect();
     compos_indices.shuffle(&mut rng);
     // ***
-    let mut rem_num_swaps = max_num_swaps.max(num_compos - 1);
+    let mut rem_num_swaps = max_num_swaps.min(num_compos.saturating_sub(1));
     // ***
     let mut mutated_mt = multi_trace_1.clone();
     while rem_num_swaps > 0 {
-- 
2.43.0


From f070475d51948fe122c325ffb839ad0bb4714c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 24/41] fix: the parent folder of a mutant with removed actions
 is created

---
 src/trace_manip/mutate/remove_actions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trace_manip/mutate/remove_actions.rs b/src/trace_manip/mutate/remove_actions.rs
index eb81f62..c839f0f 100644
--- a/src/trace_manip/mutate/remove_actions.rs
+++ b/src/trace_manip/mutate/remove_actions.rs
@@ -15,6 +15,7 @@ limitations under the License.
 */
 
 
+use std::fs;
 use std::path::PathBuf;
 use rand::rngs::ThreadRng;
 use rand::seq::SliceRandom;
@@ -39,6 +40,8 @@ pub fn generate_remove_actions_mutant(gen_ctx : &GeneralContext,
             [&file_name].iter().collect()
         },
         Some( parent ) => {
+            // creates directory
+            fs::create_dir_all(parent).unwrap();
             [parent, &file_name].iter().collect()
         }
     };
-- 
2.43.0


From 1eaa7242f51b9e4d8f758841ed548fb912cb40c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 25/41] fix: multi-traces without components have no mutants
 but themselves

---
 src/trace_manip/mutate/remove_actions.rs | 4 ++++
 src/trace_manip/mutate/swap_actions.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/trace_manip/mutate/remove_actions.rs b/src/trace_manip/mutate/remove_actions.rs
index c839f0f..522383c 100644
--- a/src/trace_manip/mutate/remove_actions.rs
+++ b/src/trace_manip/mutate/remove_actions.rs
@@ -62,6 +62,10 @@ fn mutate_by_removing_actions(gen_ctx : &GeneralContext,
                              multi_trace : &MultiTrace,
                              max_num_removes : u32) -> MultiTrace {
     // ***
+    if multi_trace.is_empty() {
+        return multi_trace.clone();
+    }
+    // ***
     let mut rem_num_removes = max_num_removes;
     // ***
     let mut rng = rand::thread_rng();
diff --git a/src/trace_manip/mutate/swap_actions.rs b/src/trace_manip/mutate/swap_actions.rs
index 34bbf25..8d5603f 100644
--- a/src/trace_manip/mutate/swap_actions.rs
+++ b/src/trace_manip/mutate/swap_actions.rs
@@ -59,6 +59,10 @@ pub fn generate_swap_actions_mutant(gen_ctx : &GeneralContext,
 
 
 fn mutate_by_swapping_actions(multi_trace : &MultiTrace, max_num_swaps : u32) -> MultiTrace {
+    // ***
+    if multi_trace.is_empty() {
+        return multi_trace.clone();
+    }
     // ***
     let mut rem_num_swaps = max_num_swaps.min(multi_trace_max_swap(multi_trace));
     // ***
-- 
2.43.0


From cbf33a724d4468f8e18d60b5c81919f07fbfc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 26/41] fix: a trace without canals is a global trace over all
 the lifelines

---
 src/io/input/htf/implem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/htf/implem.rs b/src/io/input/htf/implem.rs
index e5fca20..ccdfc78 100644
--- a/src/io/input/htf/implem.rs
+++ b/src/io/input/htf/implem.rs
@@ -52,7 +52,7 @@ pub fn multitrace_from_text(gen_ctx : &GeneralContext,
                             return Err(e);
                         },
                         Ok( got_trace ) => {
-                            let co_localization = CoLocalizations::get_trivial_partition(lifelines.len());
+                            let co_localization = CoLocalizations::get_trivial_partition(gen_ctx.get_lf_num());
                             let multi_trace : MultiTrace = vec![got_trace];
                             return Ok( (co_localization,multi_trace) );
                         }
-- 
2.43.0


From f60117e56376f1804c239d77b64ee7a2dbc435b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 27/41] fix: canals declared over a same lifeline are rejected

---
 src/io/input/htf/multi_trace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/htf/multi_trace.rs b/src/io/input/htf/multi_trace.rs
index c501d09..a1354a8 100644
--- a/src/io/input/htf/multi_trace.rs
+++ b/src/io/input/htf/multi_trace.rs
@@ -82,6 +82,9 @@ pub fn trace_canal_from_pair(gen_ctx : &GeneralContext,
                         return Err( HibouParsingError::MissingLifelineDeclarationError(lf_name));
                     },
                     Some( lf_id ) => {
+                        if unavailable_lifelines.contains(&lf_id) {
+                            return Err( HibouParsingError::NonDisjointTraceComponents );
+                        }
                         lifelines.insert(lf_id);
                     }
                 }
-- 
2.43.0


From 64f49c15883868599b0308c80bff1301fecc2e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 28/41] fix: a canal without lifelines is written so that it
 can be read back

---
 src/io/output/to_hfiles/trace/multi_trace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/output/to_hfiles/trace/multi_trace.rs b/src/io/output/to_hfiles/trace/multi_trace.rs
index 964e746..04d3709 100644
--- a/src/io/output/to_hfiles/trace/multi_trace.rs
+++ b/src/io/output/to_hfiles/trace/multi_trace.rs
@@ -37,7 +37,11 @@ pub fn multi_trace_as_htf_encoding(gen_ctx : &GeneralContext,
         for lf_id in coloc_lfs.iter().sorted() {
             lf_names.push( gen_ctx.get_lf_name(*lf_id).unwrap() );
         }
-        canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        if lf_names.is_empty() {
+            canal_string.push_str( "[#any] " );
+        } else {
+            canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        }
         // ***
         let mut trace_text_elements = vec![];
         for actions in canal_trace {
-- 
2.43.0


From 2a958dede947d07e621de6c5c9ca8868baccb6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:08 +0000
Subject: [PATCH 29/41] fix: random slices are as many as requested, of the
 requested width, and any slice can be drawn

---
 src/trace_manip/slice/random.rs | 90 ++++++++++++++-------------------
 1 file changed, 39 insertions(+), 51 deletions(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index f8b47c6..922480b 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -40,6 +40,12 @@ pub fn get_random_slicing(gen_ctx : &GeneralContext,
                          multi_trace : &MultiTrace,
                          kind : &SliceKind,
                          wide : bool) {
+    // there may be fewer distinct slices than requested
+    let num_existing : u64 = multi_trace.iter().fold(1, |prev : u64,trace|
+        prev.saturating_mul( get_num_cuts(trace.len(), kind, wide) )
+    );
+    *num_slices = min(*num_slices as u64, num_existing) as u32;
+    // ***
     let mut slices : HashSet< Vec<(usize,usize)> > = hashset!{};
     let mut rng = rand::thread_rng();
     while *num_slices > 0 {
@@ -55,12 +61,11 @@ pub fn get_random_slicing(gen_ctx : &GeneralContext,
             new_canals_ids.push( ids );
         }
         // ***
-        let file_name = format!("{:}s{:}.{:}", file_name_prefix, num_slices, HIBOU_TRACE_FILE_EXTENSION);
-        let path : PathBuf = [dir_name, &file_name].iter().collect();
-        //let file_path = format!("{:}/{:}s{:}", dir_name, file_name_prefix, num_slices);
-        *num_slices = *num_slices - 1;
-        // ***
         if !slices.contains( &new_canals_ids ) {
+            let file_name = format!("{:}s{:}.{:}", file_name_prefix, num_slices, HIBOU_TRACE_FILE_EXTENSION);
+            let path : PathBuf = [dir_name, &file_name].iter().collect();
+            *num_slices = *num_slices - 1;
+            // ***
             write_multi_trace_into_file(path.as_path(),
                                         gen_ctx,
                                         co_localizations,
@@ -71,69 +76,52 @@ pub fn get_random_slicing(gen_ctx : &GeneralContext,
 }
 
 
-fn get_indexes_cuts(rng : &mut ThreadRng, length : usize,kind : &SliceKind, wide : bool) -> (usize,usize) {
+/// the length of the smallest slices : those which are wide are at least one third of the original
+fn get_min_length(length : usize, wide : bool) -> usize {
     if wide {
-        return get_wider_cut(rng,length,kind);
+        return (length + 2) / 3;
     } else {
-        return get_any_cut(rng,length,kind);
+        return 0;
     }
 }
 
 
-
-fn get_any_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usize,usize) {
-    if length == 0 {
-        return (0,0);
-    }
-    let rng_indices = Uniform::from(0..length );
-    // ***
-    let (id1,id2) : (usize,usize);
+/// the number of distinct (start,end) indices which [get_indexes_cuts] can return
+fn get_num_cuts(length : usize, kind : &SliceKind, wide : bool) -> u64 {
+    let num_lengths = (length - get_min_length(length,wide) + 1) as u64;
     match kind {
         &SliceKind::Slice => {
-            id1 = rng_indices.sample(rng);
-            id2 = rng_indices.sample(rng);
-        },
-        &SliceKind::Prefix => {
-            id1 = 0;
-            id2 = rng_indices.sample(rng);
+            let num_cuts = num_lengths.saturating_mul(num_lengths + 1) / 2;
+            if get_min_length(length,wide) == 0 {
+                // the empty slice counts once
+                return num_cuts - (length as u64);
+            } else {
+                return num_cuts;
+            }
         },
-        &SliceKind::Suffix => {
-            id1 = rng_indices.sample(rng);
-            id2 = length;
+        &SliceKind::Prefix | &SliceKind::Suffix => {
+            return num_lengths;
         }
     }
-    // ***
-    if id2 >= id1 {
-        return (id1,id2);
-    } else {
-        return (id2,id1);
-    }
 }
 
-fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usize,usize) {
-    if length <= 4 {
-        return get_any_cut(rng,length,kind);
-    }
-    let (id1,id2) : (usize,usize);
-    match kind {
+
+fn get_indexes_cuts(rng : &mut ThreadRng, length : usize, kind : &SliceKind, wide : bool) -> (usize,usize) {
+    let slice_length = Uniform::from( get_min_length(length,wide)..(length+1) ).sample(rng);
+    let start : usize = match kind {
         &SliceKind::Slice => {
-            let rng_indices = Uniform::from(0..((length/3) + 1) );
-            id1 = rng_indices.sample(rng);
-            id2 = length - rng_indices.sample(rng);
+            if slice_length == 0 {
+                0
+            } else {
+                Uniform::from( 0..(length-slice_length+1) ).sample(rng)
+            }
         },
         &SliceKind::Prefix => {
-            let rng_indices = Uniform::from(0..((length/2)+ 1) );
-            id1 = 0;
-            id2 = min((length/2) + rng_indices.sample(rng), length );
+            0
         },
         &SliceKind::Suffix => {
-            let rng_indices = Uniform::from(0..((length/2) + 1) );
-            id1 = length - rng_indices.sample(rng);
-            id2 = length;
+            length - slice_length
         }
-    }
-    assert!(id2 >= id1);
-    return (id1,id2);
+    };
+    return (start,start+slice_length);
 }
-
-
-- 
2.43.0


From 6ccc5aca550d02f1880a0038509a18cc85c7026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:52 +0000
Subject: [PATCH 30/41] fix: local analysis does not fail a prefix analysis
 that lacks observation

---
 src/process/ana/handling/handler.rs | 10 ++++++++++
 src/process/ana/node/flags.rs       |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/process/ana/handling/handler.rs b/src/process/ana/handling/handler.rs
index 42656ec..8cc7f1e 100644
--- a/src/process/ana/handling/handler.rs
+++ b/src/process/ana/handling/handler.rs
@@ -286,8 +286,15 @@ impl AbstractProcessHandler<AnalysisConfig> for AnalysisProcessHandler {
                                                                             local_interaction,
                                                                             local_multi_trace,
                                                                             local_flags);
+                    // in a prefix analysis, a node which is dead after some execution may only have been reached because
+                    // an ancestor could not execute an action that is no longer observed
+                    let may_lack_observation = param.ana_kind == AnalysisKind::Prefix
+                        && node_kind.flags.is_any_component_started()
+                        && node_kind.flags.is_any_component_empty(&context.multi_trace);
                     if param.ana_kind.has_simulation() {
                         Some( (AnalysisLocalVerdict::OutSim(true),data) )
+                    } else if may_lack_observation {
+                        Some( (AnalysisLocalVerdict::Inconc(InconcReason::LackObs),data) )
                     } else {
                         Some( (AnalysisLocalVerdict::Out(true),data) )
                     }
@@ -308,6 +315,9 @@ impl AbstractProcessHandler<AnalysisConfig> for AnalysisProcessHandler {
             AnalysisLocalVerdict::OutSim(_) => {
                 false
             },
+            AnalysisLocalVerdict::Inconc(_) => {
+                false
+            },
             _ => {true}
         }
     }
diff --git a/src/process/ana/node/flags.rs b/src/process/ana/node/flags.rs
index f758377..36ac1e3 100644
--- a/src/process/ana/node/flags.rs
+++ b/src/process/ana/node/flags.rs
@@ -90,6 +90,10 @@ impl MultiTraceAnalysisFlags {
     // ********** ********** ********** ********** ********** ********** **********
     // ********** ********** ********** ********** ********** ********** **********
 
+    pub fn is_any_component_started(&self) -> bool {
+        self.canals.iter().any(|canal_flags| canal_flags.consumed > 0)
+    }
+
     pub fn is_any_component_empty(&self, multi_trace : &MultiTrace) -> bool {
         for (canal_id,canal_flags) in self.canals.iter().enumerate() {
             let trace= multi_trace.get(canal_id).unwrap();
-- 
2.43.0


From d8c7cfdf410832be05729e526dcec506ceca85cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:01 +0000
Subject: [PATCH 31/41] fix: rng_gen_interactions runs, creates its output
 folder and supports every signature

---
 src/experiments/interaction_random_gen/gen.rs |  5 ++++-
 src/ui/commands/cli_rng_gen_interactions.rs   | 19 +++++++++----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/experiments/interaction_random_gen/gen.rs b/src/experiments/interaction_random_gen/gen.rs
index 30113be..4376568 100644
--- a/src/experiments/interaction_random_gen/gen.rs
+++ b/src/experiments/interaction_random_gen/gen.rs
@@ -60,7 +60,10 @@ pub fn generate_random_pattern(signature : &GeneralContext,
     let mut lifelines : Vec<usize> = (0..signature.get_lf_num()).collect();
     lifelines.shuffle(rng);
     let orig_lf_id = lifelines.pop().unwrap();
-    let targets : Vec<EmissionTargetRef> = if is_broadcast {
+    let targets : Vec<EmissionTargetRef> = if lifelines.is_empty() {
+        // there is no other lifeline to transmit the message to
+        vec![]
+    } else if is_broadcast {
         let number_of_targets = rng.gen_range(0..lifelines.len());
         lifelines[0..number_of_targets].iter()
             .map(|x| EmissionTargetRef::Lifeline(*x)).collect()
diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index cdfe401..ce9f33e 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 use std::collections::HashSet;
+use std::fs;
 use std::fs::File;
 use std::io::Write;
 use std::path::{Path, PathBuf};
@@ -68,14 +69,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 }
             };
 
-            let num_tries : u32 = match matches.value_of("num_tries") {
-                None => {
-                    number_of_interactions*3
-                },
-                Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
-                }
-            };
+            let num_tries : u32 = number_of_interactions*3;
 
             let max_depth : u32 = match matches.value_of("max_depth") {
                 None => {
@@ -120,14 +114,14 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                         InteractionSymbolsProbabilities::conservative()
                     },
                     "protocols_with_coreg" => {
-                        probas_name = "conservative";
+                        probas_name = "protocols_with_coreg";
                         InteractionSymbolsProbabilities::protocols_with_coreg()
                     },
                     "default" => {
                         InteractionSymbolsProbabilities::default_non_regular()
                     },
                     _ => {
-                        panic!("unknown probas for interactions generations : '{:}'", extracted)
+                        return (vec![format!("unknown probas for interactions generations : '{:}'", extracted)],1);
                     }
                 }
             } else {
@@ -154,6 +148,11 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 output_folder)
             );
 
+            if gen_ctx.get_ms_num() == 0 || gen_ctx.get_lf_num() == 0 {
+                return (vec!["cannot generate interactions on a signature without messages or without lifelines".to_string()],1);
+            }
+            fs::create_dir_all(&output_folder).unwrap();
+
             let mut memoized_ints = HashSet::new();
 
             let mut rng = StdRng::seed_from_u64(seed);
-- 
2.43.0


From 744ff07be35b4ae27c67239bd1f63df48da5a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:01 +0000
Subject: [PATCH 32/41] fix: generated interactions are a function of the seed,
 whatever the order of hash maps

---
 src/experiments/interaction_random_gen/gen.rs    | 4 +++-
 src/experiments/interaction_random_gen/probas.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/experiments/interaction_random_gen/gen.rs b/src/experiments/interaction_random_gen/gen.rs
index 4376568..4e43a7c 100644
--- a/src/experiments/interaction_random_gen/gen.rs
+++ b/src/experiments/interaction_random_gen/gen.rs
@@ -140,8 +140,10 @@ pub fn generate_random_interaction(probas : &InteractionSymbolsProbabilities,
                     Interaction::Alt(i1,i2)
                 },
                 InteractionGenerationSymbol::Coreg => {
-                    let involved_in_both : Vec<usize> = i1.involved_lifelines().intersection(&i2.involved_lifelines())
+                    let mut involved_in_both : Vec<usize> = i1.involved_lifelines().intersection(&i2.involved_lifelines())
                         .into_iter().cloned().collect();
+                    // the content of a hash set comes in an order which differs between processes
+                    involved_in_both.sort();
                     if involved_in_both.is_empty() {
                         Interaction::Seq(i1,i2)
                     } else {
diff --git a/src/experiments/interaction_random_gen/probas.rs b/src/experiments/interaction_random_gen/probas.rs
index 98d022d..3ca1ccf 100644
--- a/src/experiments/interaction_random_gen/probas.rs
+++ b/src/experiments/interaction_random_gen/probas.rs
@@ -66,7 +66,10 @@ impl InteractionSymbolsProbabilities {
         let mut ordered_symbols = vec![];
         let mut ordered_bounds = vec![0.0_f32];
         let mut sum = 0.0;
-        for (s,p) in map {
+        // the content of a hash map comes in an order which differs between processes
+        let mut symbols : Vec<(InteractionGenerationSymbol,f32)> = map.into_iter().collect();
+        symbols.sort_by_key(|(s,_)| *s);
+        for (s,p) in symbols {
             if p < 0.0 - 1e-6 || p > 1.0 + 1e-6 {
                 return Err(InteractionSymbolsProbabilitiesError::SymbolProbabilityMustBeBetweenOAnd1);
             }
-- 
2.43.0


From 48bb0142890f3b84dd11ccf30afe2b6f2246c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:01 +0000
Subject: [PATCH 33/41] fix: steps of an analysis are drawn the same whatever
 the order of hash sets and maps

---
 src/io/output/draw_transitions/draw_firing.rs | 5 +++--
 src/io/output/draw_transitions/draw_hiding.rs | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/output/draw_transitions/draw_firing.rs b/src/io/output/draw_transitions/draw_firing.rs
index 68a5b32..aed819e 100644
--- a/src/io/output/draw_transitions/draw_firing.rs
+++ b/src/io/output/draw_transitions/draw_firing.rs
@@ -59,12 +59,13 @@ pub fn draw_firing_analysis(path : &Path,
     // ***
     if consu_set.len() > 0 || sim_map.len() > 0 {
         let mut ttp: Vec<TextToPrint> = Vec::new();
-        for coloc_id in consu_set {
+        // the content of hash sets and maps comes in an order which differs between processes
+        for coloc_id in consu_set.iter().sorted() {
             ttp.push( TextToPrint::new("C".to_string(),Rgb(HC_Grammar_Symbol)) );
             write_lfs_texts(gen_ctx,co_localizations,coloc_id,Rgb(HC_Grammar_Symbol),&mut ttp);
             ttp.push( TextToPrint::new(" ".to_string(),Rgb(HCP_Black)) );
         }
-        for (coloc_id,sim_kind) in sim_map {
+        for (coloc_id,sim_kind) in sim_map.iter().sorted_by_key(|(coloc_id,_)| **coloc_id) {
             ttp.push( TextToPrint::new("S".to_string(),Rgb(HCP_LightGray)) );
             write_lfs_texts(gen_ctx,co_localizations,coloc_id,Rgb(HCP_LightGray),&mut ttp);
             match sim_kind {
diff --git a/src/io/output/draw_transitions/draw_hiding.rs b/src/io/output/draw_transitions/draw_hiding.rs
index b3d28f6..1ffb0c9 100644
--- a/src/io/output/draw_transitions/draw_hiding.rs
+++ b/src/io/output/draw_transitions/draw_hiding.rs
@@ -40,7 +40,10 @@ pub fn draw_hiding(path : &Path,
         ttp.push( TextToPrint::new("eliminate lifelines [".to_string(),Rgb(HCP_Black)) );
         // ***
         {
-            let names_of_lfs : Vec<TextToPrint> = lfs_to_hide.iter()
+            // the content of a hash set comes in an order which differs between processes
+            let mut sorted_lfs : Vec<&usize> = lfs_to_hide.iter().collect();
+            sorted_lfs.sort();
+            let names_of_lfs : Vec<TextToPrint> = sorted_lfs.into_iter()
                 .map(|lf_id|
                     TextToPrint::new(gen_ctx.get_lf_name(*lf_id).unwrap(),Rgb(HC_Lifeline))
                 ).collect();
-- 
2.43.0


From ce5669bc655c967c2c17a371c92b260d1332de84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:08 +0000
Subject: [PATCH 34/41] fix: an image that cannot be written completely is an
 error

---
 src/io/output/draw_commons/make_image_of_text.rs   | 13 +++++++++++--
 src/io/output/draw_interactions/as_sd/interface.rs |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/io/output/draw_commons/make_image_of_text.rs b/src/io/output/draw_commons/make_image_of_text.rs
index 3762038..625842b 100644
--- a/src/io/output/draw_commons/make_image_of_text.rs
+++ b/src/io/output/draw_commons/make_image_of_text.rs
@@ -14,9 +14,11 @@ See the License for the specific language governing permissions and
 limitations under the License.
 */
 
+use std::fs;
+use std::io::Cursor;
 use std::path::Path;
 
-use image::{Rgb, RgbImage};
+use image::{ImageOutputFormat, Rgb, RgbImage};
 use image_colored_text::draw::multi_line::{draw_multiline_colored_text, MultiLineTextAlignment};
 use image_colored_text::draw::single_line::DrawCoord;
 use image_colored_text::ttp::TextToPrint;
@@ -54,7 +56,14 @@ pub fn new_image_with_colored_text(path : &Path,
                                 &get_hibou_font(),
                                 &HIBOU_FONT_SCALE);
     // ***
-    image.save(path).unwrap();
+    save_image_as_png(&image,path);
+}
+
+/// encodes the image before writing it so that an image which cannot be written completely is an error
+pub fn save_image_as_png(image : &RgbImage, path : &Path) {
+    let mut encoded = Cursor::new(Vec::new());
+    image.write_to(&mut encoded, ImageOutputFormat::Png).unwrap();
+    fs::write(path, encoded.into_inner()).unwrap();
 }
 
 
diff --git a/src/io/output/draw_interactions/as_sd/interface.rs b/src/io/output/draw_interactions/as_sd/interface.rs
index 9f5c23d..606833c 100644
--- a/src/io/output/draw_interactions/as_sd/interface.rs
+++ b/src/io/output/draw_interactions/as_sd/interface.rs
@@ -18,6 +18,7 @@ limitations under the License.
 use std::path::PathBuf;
 use crate::core::general_context::GeneralContext;
 use crate::core::language::syntax::interaction::Interaction;
+use crate::io::output::draw_commons::make_image_of_text::save_image_as_png;
 use crate::io::output::draw_interactions::as_sd::interaction_repr::interaction::make_interaction_image;
 
 
@@ -29,7 +30,7 @@ pub fn draw_int_as_sd(gen_ctx : &GeneralContext,
     let output_file_name = format!("{:}.png", output_file_name);
     let output_path : PathBuf = [parent_folder, &output_file_name].iter().collect();
     let image = make_interaction_image(gen_ctx,interaction);
-    image.save(output_path.as_path()).unwrap();
+    save_image_as_png(&image,output_path.as_path());
 }
 
 
-- 
2.43.0


From 15f13fb9eb3a66f0b1dac88805f2b6adadc98ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:08 +0000
Subject: [PATCH 35/41] fix: a file name without extension is an error, not a
 crash

---
 src/io/input/hcf/ana/interface.rs   | 2 +-
 src/io/input/hcf/canon/interface.rs | 2 +-
 src/io/input/hcf/explo/interface.rs | 2 +-
 src/io/input/hif/interface.rs       | 2 +-
 src/io/input/hsf/interface.rs       | 2 +-
 src/io/input/htf/interface.rs       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/input/hcf/ana/interface.rs b/src/io/input/hcf/ana/interface.rs
index c96ef64..d9134b0 100644
--- a/src/io/input/hcf/ana/interface.rs
+++ b/src/io/input/hcf/ana/interface.rs
@@ -37,7 +37,7 @@ use crate::io::input::hcf::ana::options::{HibouAnalyzeOptions, parse_analyze_opt
 pub fn parse_hcf_file_for_ana(gen_ctx : &GeneralContext,
                               file_path : &str) -> Result<HibouAnalyzeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/canon/interface.rs b/src/io/input/hcf/canon/interface.rs
index d95c342..54d8ef4 100644
--- a/src/io/input/hcf/canon/interface.rs
+++ b/src/io/input/hcf/canon/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::canon::options::{HibouCanonizeOptions, parse_canonize
 pub fn parse_hcf_file_for_canonize(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouCanonizeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/explo/interface.rs b/src/io/input/hcf/explo/interface.rs
index ef35f7a..a3157e2 100644
--- a/src/io/input/hcf/explo/interface.rs
+++ b/src/io/input/hcf/explo/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::explo::options::{HibouExploreOptions, parse_explore_o
 pub fn parse_hcf_file_for_explore(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouExploreOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hif/interface.rs b/src/io/input/hif/interface.rs
index 6f022da..10864a9 100644
--- a/src/io/input/hif/interface.rs
+++ b/src/io/input/hif/interface.rs
@@ -30,7 +30,7 @@ use crate::io::file_extensions::{HIBOU_INTERACTION_FILE_EXTENSION};
 
 pub fn parse_hif_file(gen_ctx : &GeneralContext, file_path : &str) -> Result<Interaction,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_INTERACTION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_INTERACTION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hsf/interface.rs b/src/io/input/hsf/interface.rs
index 6cf1818..ccdebbc 100644
--- a/src/io/input/hsf/interface.rs
+++ b/src/io/input/hsf/interface.rs
@@ -26,7 +26,7 @@ use crate::io::input::hsf::implem::parse_hsf_string;
 
 pub fn parse_hsf_file(file_path : &str) -> Result<GeneralContext,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_SIGNATURE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_SIGNATURE_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/htf/interface.rs b/src/io/input/htf/interface.rs
index 63aaf32..83cd434 100644
--- a/src/io/input/htf/interface.rs
+++ b/src/io/input/htf/interface.rs
@@ -40,7 +40,7 @@ use crate::io::input::htf::parser::{HtfParser,Rule};
 pub fn parse_htf_file(gen_ctx : &GeneralContext,
                       file_path : &str) -> Result<(CoLocalizations,MultiTrace),HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_TRACE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_TRACE_FILE_EXTENSION.to_string()));
     }
-- 
2.43.0


From 4f4bcc0079ee3490bd816dccd3eb0da107e26552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:08 +0000
Subject: [PATCH 36/41] fix: numbers out of range in a configuration are an
 error, and comments may follow numbers

---
 src/io/input/error.rs                |  7 +++++++
 src/io/input/hcf/ana/options.rs      | 16 ++++++++--------
 src/io/input/hcf/explo/options.rs    |  8 ++++----
 src/io/input/hcf/hcf_syntax.pest     |  2 +-
 src/io/input/hcf/loggers/tracegen.rs |  4 ++--
 5 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/io/input/error.rs b/src/io/input/error.rs
index 84e9208..e687ccf 100644
--- a/src/io/input/error.rs
+++ b/src/io/input/error.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 use std::fmt;
+use std::num::ParseIntError;
 
 #[derive(Debug)]
 pub enum HibouParsingError {
@@ -40,6 +41,12 @@ pub enum HibouParsingError {
     IllDefinedTraceComponents(String)
 }
 
+impl From<ParseIntError> for HibouParsingError {
+    fn from(e : ParseIntError) -> HibouParsingError {
+        return HibouParsingError::HcfSetupError(format!("number out of range : {:}", e));
+    }
+}
+
 impl fmt::Display for HibouParsingError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index d8a2411..66e9aea 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -307,19 +307,19 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>()?;
                 filters.push(Box::new(AnalysisFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>()?;
                 filters.push(Box::new(AnalysisFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>()?;
                 filters.push(Box::new(AnalysisFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -361,7 +361,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = priority_level_str.parse::<i32>()?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
@@ -452,7 +452,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                             },
                             Rule::ARITH_INTEGER => {
                                 let content_str : String = depth_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = content_str.parse::<u32>()?;
                                 max_look_ahead_depth = Some(my_val);
                             },
                             _ => {
@@ -465,7 +465,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                         match modulo_pair.as_rule() {
                             Rule::ARITH_INTEGER => {
                                 let content_str : String = modulo_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = content_str.parse::<u32>()?;
                                 modulo_each_X_steps = my_val;
                             },
                             _ => {
@@ -549,7 +549,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
                         let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>()?;
                         act_crit = SimulationActionCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
@@ -569,7 +569,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
                         let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>()?;
                         loop_crit = SimulationLoopCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
diff --git a/src/io/input/hcf/explo/options.rs b/src/io/input/hcf/explo/options.rs
index 81eced7..0be32db 100644
--- a/src/io/input/hcf/explo/options.rs
+++ b/src/io/input/hcf/explo/options.rs
@@ -204,19 +204,19 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>()?;
                 filters.push(Box::new(ExplorationFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>()?;
                 filters.push(Box::new(ExplorationFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
                 let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = content_str.parse::<u32>()?;
                 filters.push(Box::new(ExplorationFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -259,7 +259,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
                 let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = priority_level_str.parse::<i32>()?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index 386c2fe..04521d5 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -92,7 +92,7 @@ OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 OPTION_LOGGER_KIND = _{ OPTION_GRAPHIC_LOGGER | OPTION_TRACEGEN_LOGGER | OPTION_NFAIT_LOGGER }
 OPTION_LOGGER_DECL = { "loggers" ~ "=" ~ "[" ~ OPTION_LOGGER_KIND ~ ("," ~ OPTION_LOGGER_KIND)* ~ (",")? ~ "]" }
 // ***********************************************
-ARITH_INTEGER = { "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
+ARITH_INTEGER = @{ "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
 // ***********************************************
 OPTION_PRIORITY_emission = { "emission" }
 OPTION_PRIORITY_reception = { "reception" }
diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 8a6e2da..64afcd1 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -87,13 +87,13 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                     Rule::TRACEGEN_LOGGER_depth => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>()?;
                         generation = TracegenProcessLoggerGeneration::atExactDepth(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_modulo => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = content_str.parse::<u32>()?;
                         generation = TracegenProcessLoggerGeneration::atDepthModulo(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_partition_discrete => {
-- 
2.43.0


From 8284253dea0844a2bccda934b9cdd2366e3bd338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:08 +0000
Subject: [PATCH 37/41] fix: a reception without any target lifeline is an
 error

---
 src/io/input/hif/action/act_targets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/hif/action/act_targets.rs b/src/io/input/hif/action/act_targets.rs
index 5a7cd4e..cec3761 100644
--- a/src/io/input/hif/action/act_targets.rs
+++ b/src/io/input/hif/action/act_targets.rs
@@ -63,7 +63,7 @@ pub fn parse_comm_act_targets_as_lifelines(gen_ctx : &GeneralContext, target_pai
             return Ok( target_lf_ids );
         },
         Rule::ENVIRONMENT_TARGET => {
-            return Ok( vec![] );
+            return Err( HibouParsingError::OtherDefinitionError( "reception without any target lifeline".to_string() ) );
         },
         _ => {
             panic!("what rule then ? : {:?}", inner_pair.as_rule() );
-- 
2.43.0


From dfadd71f9a05332b28cfc0d8f6e830b64845cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:29 +0000
Subject: [PATCH 38/41] fix: no local analysis across eliminated
 synchronizations

---
 src/process/ana/handling/local_analysis.rs | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/process/ana/handling/local_analysis.rs b/src/process/ana/handling/local_analysis.rs
index c22a281..c74605f 100644
--- a/src/process/ana/handling/local_analysis.rs
+++ b/src/process/ana/handling/local_analysis.rs
@@ -65,6 +65,26 @@ pub fn get_local_analysis_starting_data(gen_ctx : &GeneralContext,
     return (local_coloc,local_interaction,local_multi_trace,local_flags);
 }
 
+fn is_synchronized_on_any_of(interaction : &Interaction, lf_ids : &BTreeSet<usize>) -> bool {
+    match interaction {
+        Interaction::Sync(sync_acts,i1,i2) => {
+            sync_acts.iter().any(|act| lf_ids.contains(&act.lf_id))
+                || is_synchronized_on_any_of(i1,lf_ids)
+                || is_synchronized_on_any_of(i2,lf_ids)
+        },
+        Interaction::Seq(i1,i2) | Interaction::CoReg(_,i1,i2) | Interaction::Strict(i1,i2)
+        | Interaction::Alt(i1,i2) | Interaction::Par(i1,i2) | Interaction::And(i1,i2) => {
+            is_synchronized_on_any_of(i1,lf_ids) || is_synchronized_on_any_of(i2,lf_ids)
+        },
+        Interaction::Loop(_,i1) => {
+            is_synchronized_on_any_of(i1,lf_ids)
+        },
+        _ => {
+            false
+        }
+    }
+}
+
 
 pub fn is_dead_local_analysis(gen_ctx : &GeneralContext,
                               co_localizations : &CoLocalizations,
@@ -102,6 +122,11 @@ pub fn is_dead_local_analysis(gen_ctx : &GeneralContext,
                 for lf_id in colocalized_lfs {
                     lfs_to_remove.remove( &lf_id );
                 }
+                // without the lifelines on which simultaneous actions are synchronized, the remaining actions would
+                // have to occur once per synchronized part; hence the local analysis would prove nothing
+                if is_synchronized_on_any_of(interaction, &lfs_to_remove) {
+                    continue 'iter_coloc;
+                }
                 local_interaction = interaction.eliminate_lifelines(&lfs_to_remove);
             }
             let local_coloc = CoLocalizations::new(vec![colocalized_lfs.clone()]);
-- 
2.43.0


From d6913881e0a8938e23bbc231a68bef4ddc3de873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:17 +0000
Subject: [PATCH 39/41] fix: eliminating lifelines does not keep the order of
 iterations by eliminated first actions

---
 src/core/language/eliminate_lf/interaction.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/language/eliminate_lf/interaction.rs b/src/core/language/eliminate_lf/interaction.rs
index c239f5b..d091201 100644
--- a/src/core/language/eliminate_lf/interaction.rs
+++ b/src/core/language/eliminate_lf/interaction.rs
@@ -17,7 +17,8 @@ limitations under the License.
 
 use std::collections::{BTreeSet, HashSet};
 use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
-use crate::core::language::syntax::interaction::Interaction;
+use crate::core::language::involve::involves::InvolvesLifelines;
+use crate::core::language::syntax::interaction::{Interaction, LoopKind};
 
 
 impl LifelineEliminable for Interaction {
@@ -175,6 +176,12 @@ impl LifelineEliminable for Interaction {
                 }
             },
             Interaction::Loop(opkind,i1) => {
+                // the actions that start the iterations of a head first loop may be among those eliminated:
+                // the order in which the remaining parts of the iterations start is then no longer constrained
+                let opkind = match opkind {
+                    LoopKind::HHeadFirstWS if i1.involves_any_of(lfs_to_eliminate) => &LoopKind::WWeakSeq,
+                    _ => opkind
+                };
                 let new_i1 = i1.eliminate_lifelines(lfs_to_eliminate);
                 match &new_i1 {
                     Interaction::Empty => {
-- 
2.43.0


From 382bd528871753d87275a1d933d3ff8a323896c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:10 +0000
Subject: [PATCH 40/41] fix: names of drawn exploration steps are valid
 graphviz identifiers at nested joint positions

---
 src/core/language/position/position.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/language/position/position.rs b/src/core/language/position/position.rs
index 04f0b6a..f76cf8d 100644
--- a/src/core/language/position/position.rs
+++ b/src/core/language/position/position.rs
@@ -41,13 +41,13 @@ impl Debug for Position {
                 }
             },
             Position::Left(ref in_self) => {
-                write!(f,"1{:}",in_self)
+                write!(f,"1{:?}",in_self)
             },
             Position::Right(ref in_self) => {
-                write!(f,"2{:}",in_self)
+                write!(f,"2{:?}",in_self)
             },
             Position::Both(ref sub1, ref sub2) => {
-                write!(f,"H1{:}_2{:}H",sub1,sub2)
+                write!(f,"H1{:?}_2{:?}H",sub1,sub2)
             }
         }
     }
-- 
2.43.0


From 231b49a2370132fc193f03518ae82d49150b426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:54 +0000
Subject: [PATCH 41/41] fix: executing a synchronized action prunes each
 operand on its own lifelines only

---
 src/core/execution/semantics/execute.rs | 46 +++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index f87b703..9197c3c 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -404,6 +404,46 @@ fn execute_interaction_right(my_int : &Interaction,
     }
 }
 
+fn get_executed_lifelines(my_int : &Interaction, my_pos : &Position) -> BTreeSet<usize> {
+    match (my_int,my_pos) {
+        (Interaction::Emission(em_act), Position::Epsilon(_)) => {
+            match em_act.synchronicity {
+                CommunicationSynchronicity::Synchronous => { return em_act.involved_lifelines(); },
+                CommunicationSynchronicity::Asynchronous => { return btreeset!{em_act.origin_lf_id}; }
+            }
+        },
+        (Interaction::Reception(rc_act), Position::Epsilon(Some(sub_pos_idx))) => {
+            return btreeset!{rc_act.recipients[*sub_pos_idx]};
+        },
+        (Interaction::Reception(rc_act), Position::Epsilon(None)) => {
+            return rc_act.involved_lifelines();
+        },
+        (Interaction::Loop(_,i1), Position::Left(p1)) => {
+            return get_executed_lifelines(i1,p1);
+        },
+        (Interaction::Alt(i1,i2), _) |
+        (Interaction::Strict(i1,i2), _) |
+        (Interaction::Seq(i1,i2), _) |
+        (Interaction::CoReg(_,i1,i2), _) |
+        (Interaction::Par(i1,i2), _) |
+        (Interaction::Sync(_,i1,i2), _) => {
+            match my_pos {
+                Position::Left(p1) => { return get_executed_lifelines(i1,p1); },
+                Position::Right(p2) => { return get_executed_lifelines(i2,p2); },
+                Position::Both(p1,p2) => {
+                    let mut lf_ids = get_executed_lifelines(i1,p1);
+                    lf_ids.extend(get_executed_lifelines(i2,p2));
+                    return lf_ids;
+                },
+                Position::Epsilon(_) => { panic!("no action at position {:?} of {:?}", my_pos, my_int); }
+            }
+        },
+        _ => {
+            panic!("no action at position {:?} of {:?}", my_pos, my_int);
+        }
+    }
+}
+
 fn execute_interaction_both(my_int : &Interaction,
                             sub_p1 : &Position,
                             sub_p2 : &Position,
@@ -426,8 +466,10 @@ fn execute_interaction_both(my_int : &Interaction,
             }
         },
         Interaction::Sync(sync_acts, i1, i2) => {
-            let exres1 = execute_interaction(i1,sub_p1, tar_lf_ids,get_affected);
-            let exres2 = execute_interaction(i2,sub_p2, tar_lf_ids,get_affected);
+            // each operand only executes its own part of the simultaneous actions
+            // (and must not be pruned on the lifelines that are only concerned by the part of the other)
+            let exres1 = execute_interaction(i1,sub_p1, &get_executed_lifelines(i1,sub_p1),get_affected);
+            let exres2 = execute_interaction(i2,sub_p2, &get_executed_lifelines(i2,sub_p2),get_affected);
             // ***
             let acts1 = exres1.interaction.get_all_trace_actions();
             let acts2 = exres2.interaction.get_all_trace_actions();
-- 
2.43.0

