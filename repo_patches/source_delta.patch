From d8a198956f277d8b5c5e52f6effef3874892def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 01/26] fix: wake every thread that waits for a job state

SimpleJobStateMonitor::OnStateChange woke one waiter only: with several threads in
WaitForFinished or WaitForState, the others stayed blocked although their state had
been reached (or the one woken waited for another state).
---
 src/lib/sup/oac-tree/base/application_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/application_utils.cpp b/src/lib/sup/oac-tree/base/application_utils.cpp
index ed5c08a..31ea5e6 100644
--- a/src/lib/sup/oac-tree/base/application_utils.cpp
+++ b/src/lib/sup/oac-tree/base/application_utils.cpp
@@ -91,7 +91,7 @@ void SimpleJobStateMonitor::OnStateChange(JobState state) noexcept
     std::lock_guard<std::mutex> lk{m_mtx};
     m_state = state;
   }
-  m_cv.notify_one();
+  m_cv.notify_all();
 }
 
 void SimpleJobStateMonitor::OnBreakpointChange(const Instruction* instruction,
-- 
2.43.0


From 046b15acb5ee10882b357819f397fac204901e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 02/26] fix: execute a child as often as Choice selects it

---
 src/lib/sup/oac-tree/instructions/choice.cpp | 44 ++++++++++----------
 src/lib/sup/oac-tree/instructions/choice.h   |  2 +
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/choice.cpp b/src/lib/sup/oac-tree/instructions/choice.cpp
index ed00ae3..84c40aa 100644
--- a/src/lib/sup/oac-tree/instructions/choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/choice.cpp
@@ -46,6 +46,7 @@ Choice::Choice()
   : CompoundInstruction(Choice::Type)
   , m_instruction_list{}
   , m_instruction_list_initialized{false}
+  , m_current{0}
 {
   AddAttributeDefinition(Constants::GENERIC_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -64,17 +65,25 @@ ExecutionStatus Choice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
     }
     return ExecutionStatus::NOT_FINISHED;
   }
-  for (auto instruction : m_instruction_list)
+  if (m_current < m_instruction_list.size())
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
+    auto instruction = m_instruction_list[m_current];
+    if (instruction->GetStatus() == ExecutionStatus::SUCCESS)
     {
-      continue;
+      // This child was selected more than once and has to be executed again.
+      instruction->Reset(ui);
+      if (IsHaltRequested())
+      {
+        return ExecutionStatus::NOT_FINISHED;
+      }
     }
-    if (NeedsExecute(child_status))
+    if (NeedsExecute(instruction->GetStatus()))
     {
       instruction->ExecuteSingle(ui, ws);
-      break;
+    }
+    if (instruction->GetStatus() == ExecutionStatus::SUCCESS)
+    {
+      ++m_current;
     }
   }
   return CalculateCompoundStatus();
@@ -84,25 +93,21 @@ void Choice::ResetHook(UserInterface& ui)
 {
   m_instruction_list.clear();
   m_instruction_list_initialized = false;
+  m_current = 0;
   ResetChildren(ui);
 }
 
 std::vector<const Instruction*> Choice::NextInstructionsImpl() const
 {
   std::vector<const Instruction*> result;
-  for (auto instruction : m_instruction_list)
+  if (m_current < m_instruction_list.size())
   {
+    auto instruction = m_instruction_list[m_current];
     auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
-    {
-      continue;
-    }
-    if (ReadyForExecute(child_status))
+    if (ReadyForExecute(child_status) || child_status == ExecutionStatus::SUCCESS)
     {
       result.push_back(instruction);
-      return result;
     }
-    break;
   }
   return result;
 }
@@ -143,15 +148,10 @@ bool Choice::CreateInstructionList(UserInterface& ui, Workspace& ws)
 
 ExecutionStatus Choice::CalculateCompoundStatus() const
 {
-  for (auto instruction : m_instruction_list)
+  if (m_current < m_instruction_list.size())
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
-    {
-      continue;
-    }
-    if (child_status == ExecutionStatus::NOT_STARTED
-        || child_status == ExecutionStatus::NOT_FINISHED)
+    auto child_status = m_instruction_list[m_current]->GetStatus();
+    if (ReadyForExecute(child_status) || child_status == ExecutionStatus::SUCCESS)
     {
       return ExecutionStatus::NOT_FINISHED;
     }
diff --git a/src/lib/sup/oac-tree/instructions/choice.h b/src/lib/sup/oac-tree/instructions/choice.h
index 7c4ceef..2a9ee0a 100644
--- a/src/lib/sup/oac-tree/instructions/choice.h
+++ b/src/lib/sup/oac-tree/instructions/choice.h
@@ -53,6 +53,8 @@ private:
 
   bool m_instruction_list_initialized;
 
+  std::size_t m_current;  // position in the list of the instruction to execute
+
   ExecutionStatus ExecuteSingleImpl(UserInterface& ui, Workspace& ws) override;
 
   void ResetHook(UserInterface& ui) override;
-- 
2.43.0


From 39f274bc03da11ebcad113b0c8eabbe28bdfd5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 03/26] fix: do not lose a halt request when a loop resets its
 child

---
 src/lib/sup/oac-tree/instructions/for.cpp    | 5 +++++
 src/lib/sup/oac-tree/instructions/listen.cpp | 5 +++++
 src/lib/sup/oac-tree/instructions/repeat.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/lib/sup/oac-tree/instructions/for.cpp b/src/lib/sup/oac-tree/instructions/for.cpp
index 346cacc..d75f957 100644
--- a/src/lib/sup/oac-tree/instructions/for.cpp
+++ b/src/lib/sup/oac-tree/instructions/for.cpp
@@ -107,6 +107,11 @@ ExecutionStatus ForInstruction::ExecuteSingleImpl(UserInterface& ui, Workspace&
   if (child_status == ExecutionStatus::SUCCESS)
   {
     ResetChild(ui);
+    // The reset may have removed a halt request from the child.
+    if (IsHaltRequested())
+    {
+      return ExecutionStatus::NOT_FINISHED;
+    }
   }
   ExecuteChild(ui, ws);
 
diff --git a/src/lib/sup/oac-tree/instructions/listen.cpp b/src/lib/sup/oac-tree/instructions/listen.cpp
index 875ed3d..6d48843 100644
--- a/src/lib/sup/oac-tree/instructions/listen.cpp
+++ b/src/lib/sup/oac-tree/instructions/listen.cpp
@@ -71,6 +71,11 @@ ExecutionStatus Listen::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
   if (IsFinishedStatus(child_status))
   {
     ResetChild(ui);
+    // The reset may have removed a halt request from the child.
+    if (IsHaltRequested())
+    {
+      return ExecutionStatus::FAILURE;
+    }
   }
   auto cache_changed = UpdateVariableCache(ws);
   if (!cache_changed)
diff --git a/src/lib/sup/oac-tree/instructions/repeat.cpp b/src/lib/sup/oac-tree/instructions/repeat.cpp
index 0d4a7d0..6207dac 100644
--- a/src/lib/sup/oac-tree/instructions/repeat.cpp
+++ b/src/lib/sup/oac-tree/instructions/repeat.cpp
@@ -69,6 +69,11 @@ ExecutionStatus Repeat::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
   if (child_status == ExecutionStatus::SUCCESS)
   {
     ResetChild(ui);
+    // The reset may have removed a halt request from the child.
+    if (IsHaltRequested())
+    {
+      return ExecutionStatus::NOT_FINISHED;
+    }
   }
   ExecuteChild(ui, ws);
 
-- 
2.43.0


From 9452b24f1047647d2f778161323305a75eecb9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:58 +0000
Subject: [PATCH 04/26] fix: do not report a past breakpoint stop when a
 procedure finishes

---
 src/lib/sup/oac-tree/runner/runner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 70abdd8..30049b4 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -88,6 +88,8 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
+  // Instructions of an earlier breakpoint stop do not concern this execution.
+  m_current_breakpoint_instructions.clear();
   if (!m_proc)
   {
     return;
-- 
2.43.0


From a5276fe2f0037949ba2232b673af7e96773f5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:58 +0000
Subject: [PATCH 05/26] fix: a reset job stops again at the breakpoint it was
 halted at

---
 src/lib/sup/oac-tree/runner.h                | 6 ++++++
 src/lib/sup/oac-tree/runner/async_runner.cpp | 1 +
 src/lib/sup/oac-tree/runner/runner.cpp       | 6 ++++++
 3 files changed, 13 insertions(+)

diff --git a/src/lib/sup/oac-tree/runner.h b/src/lib/sup/oac-tree/runner.h
index e86a039..002efcc 100644
--- a/src/lib/sup/oac-tree/runner.h
+++ b/src/lib/sup/oac-tree/runner.h
@@ -129,6 +129,12 @@ public:
    */
   std::vector<const Instruction*> GetCurrentBreakpointInstructions() const;
 
+  /**
+   * @brief Makes all breakpoints effective again, including those the execution stopped at and has
+   * not passed yet. To be called when the procedure is reset.
+   */
+  void ResetBreakpoints();
+
   /**
    * @brief Halts the procedure execution.
    */
diff --git a/src/lib/sup/oac-tree/runner/async_runner.cpp b/src/lib/sup/oac-tree/runner/async_runner.cpp
index 1268140..cbd7174 100644
--- a/src/lib/sup/oac-tree/runner/async_runner.cpp
+++ b/src/lib/sup/oac-tree/runner/async_runner.cpp
@@ -244,6 +244,7 @@ AsyncRunner::Action AsyncRunner::HandleFinished(JobCommand command)
       break;
     case JobCommand::kReset:
       m_proc.Reset(m_ui);
+      m_runner.ResetBreakpoints();
       SetState(JobState::kInitial);
       break;
     case JobCommand::kHalt:
diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 30049b4..a54613b 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -127,6 +127,12 @@ std::vector<const Instruction*> Runner::GetCurrentBreakpointInstructions() const
   return m_current_breakpoint_instructions;
 }
 
+void Runner::ResetBreakpoints()
+{
+  m_breakpoint_manager->ResetBreakpoints();
+  m_current_breakpoint_instructions.clear();
+}
+
 void Runner::Halt()
 {
   m_halt.store(true);
-- 
2.43.0


From cef058b5409066953f5dfa5311fff0ab11b3c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:58 +0000
Subject: [PATCH 06/26] fix: keep the job interface until the procedure of a
 job is destroyed

---
 src/lib/sup/oac-tree/runner/local_job.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/sup/oac-tree/runner/local_job.cpp b/src/lib/sup/oac-tree/runner/local_job.cpp
index e346906..0a29335 100644
--- a/src/lib/sup/oac-tree/runner/local_job.cpp
+++ b/src/lib/sup/oac-tree/runner/local_job.cpp
@@ -32,12 +32,12 @@ namespace oac_tree
 struct LocalJob::LocalJobImpl
 {
   LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io);
-  ~LocalJobImpl() = default;
+  ~LocalJobImpl();
 
   std::unique_ptr<Procedure> m_proc;
   JobInterfaceAdapter m_job_interface;
 
-  AsyncRunner m_runner;
+  std::unique_ptr<AsyncRunner> m_runner;
   std::unique_ptr<JobInfo> m_job_info;
   std::vector<const oac_tree::Instruction*> m_ordered_instructions;
 };
@@ -113,13 +113,13 @@ void LocalJob::Halt()
 
 AsyncRunner& LocalJob::Runner()
 {
-  return m_impl->m_runner;
+  return *m_impl->m_runner;
 }
 
 LocalJob::LocalJobImpl::LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io)
   : m_proc{std::move(proc)}
   , m_job_interface{*m_proc, job_info_io}
-  , m_runner{*m_proc, m_job_interface}
+  , m_runner{new AsyncRunner{*m_proc, m_job_interface}}
   , m_job_info{}
   , m_ordered_instructions{}
 {
@@ -129,6 +129,14 @@ LocalJob::LocalJobImpl::LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO
   m_ordered_instructions = m_job_interface.GetOrderedInstructions();
 }
 
+LocalJob::LocalJobImpl::~LocalJobImpl()
+{
+  m_runner.reset();
+  // Asynchronous instructions may still be running and use the job interface: destroying the
+  // procedure first waits for them.
+  m_proc.reset();
+}
+
 }  // namespace oac_tree
 
 }  // namespace sup
-- 
2.43.0


From ed795b68afb9809ea7c6e60518515b322b3a50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:26 +0000
Subject: [PATCH 07/26] fix: report instruction states in the order of their
 changes

---
 src/lib/sup/oac-tree/async_runner.h                   | 2 ++
 src/lib/sup/oac-tree/job_interface_adapter.h          | 4 ++++
 src/lib/sup/oac-tree/runner/async_runner.cpp          | 3 +++
 src/lib/sup/oac-tree/runner/job_interface_adapter.cpp | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/lib/sup/oac-tree/async_runner.h b/src/lib/sup/oac-tree/async_runner.h
index 19a27c7..697f13f 100644
--- a/src/lib/sup/oac-tree/async_runner.h
+++ b/src/lib/sup/oac-tree/async_runner.h
@@ -32,6 +32,7 @@
 #include <sup/oac-tree/user_interface.h>
 
 #include <future>
+#include <mutex>
 
 namespace sup
 {
@@ -114,6 +115,7 @@ private:
   Runner m_runner;
 
   JobStateMonitor& m_state_monitor;
+  std::recursive_mutex m_breakpoint_mtx;  // breakpoint changes are reported in order
 
   JobCommandQueue m_command_queue;
 
diff --git a/src/lib/sup/oac-tree/job_interface_adapter.h b/src/lib/sup/oac-tree/job_interface_adapter.h
index 1444aa7..c74fc13 100644
--- a/src/lib/sup/oac-tree/job_interface_adapter.h
+++ b/src/lib/sup/oac-tree/job_interface_adapter.h
@@ -29,6 +29,7 @@
 #include <sup/oac-tree/job_interface.h>
 #include <sup/oac-tree/job_map.h>
 
+#include <mutex>
 #include <vector>
 
 namespace sup
@@ -64,6 +65,9 @@ public:
 
 private:
   JobMap m_job_map;
+  // Status and breakpoint changes come from different threads: an instruction state and its report
+  // have to be updated together (recursive, as the report may call back).
+  std::recursive_mutex m_instr_states_mtx;
   std::vector<InstructionState> m_instr_states;
   IJobInfoIO& m_job_info_io;
   AsyncInputAdapter m_input_adapter;
diff --git a/src/lib/sup/oac-tree/runner/async_runner.cpp b/src/lib/sup/oac-tree/runner/async_runner.cpp
index cbd7174..d0b9cc6 100644
--- a/src/lib/sup/oac-tree/runner/async_runner.cpp
+++ b/src/lib/sup/oac-tree/runner/async_runner.cpp
@@ -36,6 +36,7 @@ AsyncRunner::AsyncRunner(Procedure& proc, UserInterface& ui, JobStateMonitor& st
   , m_ui{ui}
   , m_runner{m_ui}
   , m_state_monitor{state_monitor}
+  , m_breakpoint_mtx{}
   , m_command_queue{}
   , m_command_handler{}
   , m_loop_future{}
@@ -56,6 +57,7 @@ AsyncRunner::~AsyncRunner()
 
 void AsyncRunner::SetBreakpoint(const Instruction* instruction)
 {
+  std::lock_guard<std::recursive_mutex> lk{m_breakpoint_mtx};
   try
   {
     if (m_runner.SetBreakpoint(instruction))
@@ -71,6 +73,7 @@ void AsyncRunner::SetBreakpoint(const Instruction* instruction)
 
 void AsyncRunner::RemoveBreakpoint(const Instruction* instruction)
 {
+  std::lock_guard<std::recursive_mutex> lk{m_breakpoint_mtx};
   if (m_runner.RemoveBreakpoint(instruction))
   {
     m_state_monitor.OnBreakpointChange(instruction, false);
diff --git a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
index 47bf8db..0c91abb 100644
--- a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
+++ b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
@@ -41,6 +41,7 @@ using namespace std::placeholders;
 
 JobInterfaceAdapter::JobInterfaceAdapter(const Procedure& proc, IJobInfoIO& job_info_io)
   : m_job_map{proc}
+  , m_instr_states_mtx{}
   , m_instr_states{}
   , m_job_info_io{job_info_io}
   , m_input_adapter{std::bind(&ForwardUserInput, std::ref(m_job_info_io), _1, _2),
@@ -71,6 +72,7 @@ std::vector<const Instruction*> JobInterfaceAdapter::GetOrderedInstructions() co
 void JobInterfaceAdapter::UpdateInstructionStatus(const Instruction* instruction)
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  std::lock_guard<std::recursive_mutex> lk{m_instr_states_mtx};
   auto status = instruction->GetStatus();
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_execution_status = status;
@@ -115,6 +117,7 @@ void JobInterfaceAdapter::OnBreakpointChange(const Instruction* instruction,
                                              bool breakpoint_set) noexcept
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  std::lock_guard<std::recursive_mutex> lk{m_instr_states_mtx};
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_breakpoint_set = breakpoint_set;
   m_job_info_io.InstructionStateUpdated(instr_idx, instr_state);
-- 
2.43.0


From d6a5299b439c311d57b720aa0508671cb4e36676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 08/26] fix: stop at breakpoints in a loop body in every
 iteration

---
 src/lib/sup/oac-tree/instructions/fallback.cpp          | 5 +++++
 src/lib/sup/oac-tree/instructions/parallel_sequence.cpp | 3 ++-
 src/lib/sup/oac-tree/instructions/reactive_fallback.cpp | 5 +++++
 src/lib/sup/oac-tree/instructions/reactive_sequence.cpp | 5 +++++
 src/lib/sup/oac-tree/instructions/sequence.cpp          | 5 +++++
 5 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/fallback.cpp b/src/lib/sup/oac-tree/instructions/fallback.cpp
index 6f34657..420bca3 100644
--- a/src/lib/sup/oac-tree/instructions/fallback.cpp
+++ b/src/lib/sup/oac-tree/instructions/fallback.cpp
@@ -54,6 +54,11 @@ ExecutionStatus Fallback::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 
 std::vector<const Instruction*> Fallback::NextInstructionsImpl() const
 {
+  if (IsFinishedStatus(GetStatus()) && HasChildren())
+  {
+    // Before it is executed again (in a loop), it is reset, so it restarts with its first child:
+    return {ChildInstructions().front()};
+  }
   std::vector<const Instruction*> result;
   for (auto instruction : ChildInstructions())
   {
diff --git a/src/lib/sup/oac-tree/instructions/parallel_sequence.cpp b/src/lib/sup/oac-tree/instructions/parallel_sequence.cpp
index ac9b72e..ec63dae 100644
--- a/src/lib/sup/oac-tree/instructions/parallel_sequence.cpp
+++ b/src/lib/sup/oac-tree/instructions/parallel_sequence.cpp
@@ -85,7 +85,8 @@ void ParallelSequence::ResetHook(UserInterface& ui)
 
 std::vector<const Instruction*> ParallelSequence::NextInstructionsImpl() const
 {
-  if (m_wrappers.empty())
+  // A finished instruction is reset before it is executed again (in a loop).
+  if (m_wrappers.empty() || IsFinishedStatus(GetStatus()))
   {
     return ChildInstructions();
   }
diff --git a/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp b/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp
index 421b845..9fa1e2a 100644
--- a/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp
+++ b/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp
@@ -62,6 +62,11 @@ ExecutionStatus ReactiveFallback::ExecuteSingleImpl(UserInterface& ui, Workspace
 
 std::vector<const Instruction*> ReactiveFallback::NextInstructionsImpl() const
 {
+  if (IsFinishedStatus(GetStatus()) && HasChildren())
+  {
+    // Before it is executed again (in a loop), it is reset, so it restarts with its first child:
+    return {ChildInstructions().front()};
+  }
   std::vector<const Instruction*> result;
   for (auto instruction : ChildInstructions())
   {
diff --git a/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp b/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp
index f5215b6..488f6c0 100644
--- a/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp
+++ b/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp
@@ -62,6 +62,11 @@ ExecutionStatus ReactiveSequence::ExecuteSingleImpl(UserInterface& ui, Workspace
 
 std::vector<const Instruction*> ReactiveSequence::NextInstructionsImpl() const
 {
+  if (IsFinishedStatus(GetStatus()) && HasChildren())
+  {
+    // Before it is executed again (in a loop), it is reset, so it restarts with its first child:
+    return {ChildInstructions().front()};
+  }
   std::vector<const Instruction*> result;
   for (auto instruction : ChildInstructions())
   {
diff --git a/src/lib/sup/oac-tree/instructions/sequence.cpp b/src/lib/sup/oac-tree/instructions/sequence.cpp
index bc7ca0c..00d7409 100644
--- a/src/lib/sup/oac-tree/instructions/sequence.cpp
+++ b/src/lib/sup/oac-tree/instructions/sequence.cpp
@@ -55,6 +55,11 @@ ExecutionStatus Sequence::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 
 std::vector<const Instruction*> Sequence::NextInstructionsImpl() const
 {
+  if (IsFinishedStatus(GetStatus()) && HasChildren())
+  {
+    // Before it is executed again (in a loop), it is reset, so it restarts with its first child:
+    return {ChildInstructions().front()};
+  }
   std::vector<const Instruction*> result;
   for (auto instruction : ChildInstructions())
   {
-- 
2.43.0


From ab659f764c7bffb33f64d1c4752a9dc144499d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 09/26] fix: notify the value that a local variable has, not
 the one assigned

---
 src/lib/sup/oac-tree/variables/local_variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/variables/local_variable.cpp b/src/lib/sup/oac-tree/variables/local_variable.cpp
index b53e95b..921602d 100644
--- a/src/lib/sup/oac-tree/variables/local_variable.cpp
+++ b/src/lib/sup/oac-tree/variables/local_variable.cpp
@@ -87,7 +87,7 @@ bool LocalVariable::SetValueImpl(const sup::dto::AnyValue& value)
   }
   if (result)
   {
-    Notify(value, true);
+    Notify(m_value, true);
   }
   return result;
 }
-- 
2.43.0


From 68d845a6456a14e0bc562012066c4042ad224c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:35 +0000
Subject: [PATCH 10/26] fix: do not lose an update while waiting for a variable

---
 src/lib/sup/oac-tree/procedure/workspace.cpp | 23 +++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index f7e759d..c9b6ec5 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <atomic>
+#include <chrono>
 #include <condition_variable>
 #include <set>
 #include <mutex>
@@ -162,19 +163,31 @@ bool Workspace::WaitForVariable(const std::string& name, double timeout_sec, boo
     return false;
   }
   auto timeout_duration = std::chrono::duration<double>(timeout_sec);
+  auto finish = std::chrono::steady_clock::now() +
+    std::chrono::duration_cast<std::chrono::steady_clock::duration>(timeout_duration);
   int dummy_listener; // to get a unique address
   std::mutex mx;
-  std::unique_lock<std::mutex> lk(mx);
   std::condition_variable cv;
+  bool updated = false;
   auto cb_guard = GetCallbackGuard(&dummy_listener);
-  auto callback = [&cv](const auto&, auto){
+  auto callback = [&mx, &cv, &updated](const auto&, auto){
+                    std::lock_guard<std::mutex> lk(mx);
+                    updated = true;
                     cv.notify_one();
                   };
   RegisterCallback(name, callback, &dummy_listener);
-  cv.wait_for(lk, timeout_duration, [&it, availability]{
+  // The callback may run while the variable is locked, so do not query the variable under the lock.
+  while (it->second->IsAvailable() != availability)
+  {
+    std::unique_lock<std::mutex> lk(mx);
+    if (!cv.wait_until(lk, finish, [&updated]{ return updated; }))
+    {
+      lk.unlock();
       return it->second->IsAvailable() == availability;
-    });
-  return it->second->IsAvailable() == availability;
+    }
+    updated = false;
+  }
+  return true;
 }
 
 std::vector<const Variable*> Workspace::GetVariables() const
-- 
2.43.0


From 1c923deed5c3a791b9542535edcdc9367669d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:52 +0000
Subject: [PATCH 11/26] fix: no access to the value of a variable while it is
 torn down

---
 src/lib/sup/oac-tree/variables/variable.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/variables/variable.cpp b/src/lib/sup/oac-tree/variables/variable.cpp
index 7b32f8c..0795d22 100644
--- a/src/lib/sup/oac-tree/variables/variable.cpp
+++ b/src/lib/sup/oac-tree/variables/variable.cpp
@@ -83,6 +83,7 @@ SetupTeardownActions Variable::Setup(const Workspace& ws)
     throw VariableSetupException(error_message);
   }
   auto actions = SetupImpl(ws);
+  std::lock_guard<std::mutex> lk(m_access_mutex);
   m_setup_successful = true;
   return actions;
 }
@@ -166,9 +167,13 @@ void Variable::SetNotifyCallback(Callback func)
 
 void Variable::Teardown()
 {
+  {
+    // Make sure that no other thread accesses the variable from here on.
+    std::lock_guard<std::mutex> lk(m_access_mutex);
+    m_setup_successful = false;
+  }
   TeardownImpl();
   m_attribute_handler.ClearFailedConstraints();
-  m_setup_successful = false;
 }
 
 bool Variable::HasAttribute(const std::string &name) const
-- 
2.43.0


From 54cf13b33cfc4f6a15d4fd724f753ee9651936ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 12/26] fix: serialise setup, reset and teardown of a variable

Variable::Reset is a teardown followed by a setup. When two threads reset the
same variable (or one resets it while the workspace is torn down), the teardown
of one could run after the setup of the other: the variable was then usable
according to its flag, but without value.
---
 src/lib/sup/oac-tree/variable.h             | 6 ++++++
 src/lib/sup/oac-tree/variables/variable.cpp | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/lib/sup/oac-tree/variable.h b/src/lib/sup/oac-tree/variable.h
index ab64996..a6227fa 100644
--- a/src/lib/sup/oac-tree/variable.h
+++ b/src/lib/sup/oac-tree/variable.h
@@ -277,6 +277,12 @@ private:
    */
   mutable std::mutex m_access_mutex;
 
+  /**
+   * @brief Mutex for setup, teardown and reset, which may be requested by different threads.
+   * @details Recursive since the default implementation of reset is a teardown and a setup.
+   */
+  std::recursive_mutex m_setup_mutex;
+
   /**
    * @brief Mutex for concurrent access of the update counter.
    * @details This mutex protects only access to the update counter.
diff --git a/src/lib/sup/oac-tree/variables/variable.cpp b/src/lib/sup/oac-tree/variables/variable.cpp
index 0795d22..305a904 100644
--- a/src/lib/sup/oac-tree/variables/variable.cpp
+++ b/src/lib/sup/oac-tree/variables/variable.cpp
@@ -50,6 +50,7 @@ Variable::Variable(const std::string &type)
   , m_attribute_handler{}
   , m_setup_successful{false}
   , m_access_mutex{}
+  , m_setup_mutex{}
   , m_notify_mutex{}
   , m_update_cond{}
   , m_notify_cb{}
@@ -76,6 +77,7 @@ void Variable::SetName(const std::string &name)
 
 SetupTeardownActions Variable::Setup(const Workspace& ws)
 {
+  std::lock_guard<std::recursive_mutex> setup_lk(m_setup_mutex);
   if (!m_attribute_handler.ValidateAttributes())
   {
     auto error_message =
@@ -90,6 +92,7 @@ SetupTeardownActions Variable::Setup(const Workspace& ws)
 
 void Variable::Reset(const Workspace& ws)
 {
+  std::lock_guard<std::recursive_mutex> setup_lk(m_setup_mutex);
   return ResetImpl(ws);
 }
 
@@ -167,6 +170,7 @@ void Variable::SetNotifyCallback(Callback func)
 
 void Variable::Teardown()
 {
+  std::lock_guard<std::recursive_mutex> setup_lk(m_setup_mutex);
   {
     // Make sure that no other thread accesses the variable from here on.
     std::lock_guard<std::mutex> lk(m_access_mutex);
-- 
2.43.0


From 821a8efe8f103d469e8a60f433c829ef5dee0835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 13/26] fix: wake up all threads that wait for user input when
 a reply arrives

Threads that wait for different requests share one condition variable, so waking up only one of
them can leave the thread whose reply is ready waiting until its timeout.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index aa4a0bc..74aa2be 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -100,7 +100,7 @@ void AsyncInputAdapter::HandleRequestQueue()
     if (m_current_id == id)
     {
       m_replies[m_current_id] = reply;
-      m_reply_cv.notify_one();
+      m_reply_cv.notify_all();
     }
     m_current_id = 0;
   }
-- 
2.43.0


From d027ded1607a0200a993cad8d7f70dab7b691106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 14/26] fix: end the input handler thread before destroying
 what it uses

The future was declared before the mutex and condition variables, which were therefore destroyed
while the handler thread could still use them.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index 74aa2be..c5b19cb 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -60,6 +60,8 @@ AsyncInputAdapter::~AsyncInputAdapter()
     m_halt = true;
   }
   m_cv.notify_one();
+  // The handler thread uses the other members, so it needs to end before they are destroyed:
+  m_handler_future.wait();
 }
 
 std::unique_ptr<IUserInputFuture> AsyncInputAdapter::AddUserInputRequest(
-- 
2.43.0


From e93d50aef2b48a69bf0b8356f8727487baf61988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 15/26] fix: halt the children of a halted UserChoice
 instruction

UserChoice overrides CompoundInstruction::HaltImpl to abandon its request and did not pass the halt
on to its children.
---
 src/lib/sup/oac-tree/instructions/user_choice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 69a569e..b6a41c1 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -110,6 +110,7 @@ void UserChoice::ResetHook(UserInterface& ui)
 void UserChoice::HaltImpl()
 {
   m_future.reset();
+  HaltChildren();
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
-- 
2.43.0


From 0606e54a5bc117eb70be352eb02e061f53373f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 16/26] fix: do not destroy a user input future that is being
 used

Halt() is called from other threads and destroyed the future of Input, UserChoice and
UserConfirmation while the executing thread could be using it.
---
 src/lib/sup/oac-tree/instructions/input.cpp   | 32 +++++++++++++++----
 src/lib/sup/oac-tree/instructions/input.h     |  2 ++
 .../sup/oac-tree/instructions/user_choice.cpp | 32 +++++++++++++++----
 .../sup/oac-tree/instructions/user_choice.h   |  2 ++
 .../instructions/user_confirmation.cpp        | 32 +++++++++++++++----
 .../oac-tree/instructions/user_confirmation.h |  3 ++
 6 files changed, 82 insertions(+), 21 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index 6c145c3..8c7bf41 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -38,6 +38,7 @@ const std::string Input::Type = "Input";
 Input::Input()
   : Instruction(Input::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -59,17 +60,22 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_future = CreateUserValueFuture(ui, *this, value, description);
-  if (!m_future)
+  auto future = CreateUserValueFuture(ui, *this, value, description);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  if (!IsHaltRequested())
+  {
+    m_future = std::move(future);
+  }
   return true;
 }
 
 ExecutionStatus Input::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -83,16 +89,28 @@ void Input::ResetHook(UserInterface& ui)
 
 void Input::HaltImpl()
 {
-  m_future.reset();
+  std::unique_ptr<IUserInputFuture> future{};
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    future = std::move(m_future);
+  }
 }
 
 ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
-  if (!m_future->IsReady())
+  UserInputReply reply;
   {
-    return ExecutionStatus::RUNNING;
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    if (!m_future)
+    {
+      return ExecutionStatus::FAILURE;
+    }
+    if (!m_future->IsReady())
+    {
+      return ExecutionStatus::RUNNING;
+    }
+    reply = m_future->GetValue();
   }
-  auto reply = m_future->GetValue();
   auto [success, user_value] = ParseUserValueReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/input.h b/src/lib/sup/oac-tree/instructions/input.h
index 32ed0e9..d71745a 100644
--- a/src/lib/sup/oac-tree/instructions/input.h
+++ b/src/lib/sup/oac-tree/instructions/input.h
@@ -26,6 +26,7 @@
 #include <sup/oac-tree/instruction.h>
 
 #include <memory>
+#include <mutex>
 
 namespace sup
 {
@@ -49,6 +50,7 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;  // Halt() may be called from other threads
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index b6a41c1..4c23d57 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -36,6 +36,7 @@ UserChoice::UserChoice()
   : CompoundInstruction(UserChoice::Type)
   , m_choice{-1}
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth);
@@ -55,27 +56,40 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kSelection});
   auto options = GetChoices();
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  if (!IsHaltRequested())
+  {
+    m_future = std::move(future);
+  }
   return true;
 }
 
 ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
   if (m_choice < 0)
   {
-    if (!m_future->IsReady())
+    UserInputReply reply;
     {
-      return ExecutionStatus::RUNNING;
+      std::lock_guard<std::mutex> lk{m_future_mtx};
+      if (!m_future)
+      {
+        return ExecutionStatus::FAILURE;
+      }
+      if (!m_future->IsReady())
+      {
+        return ExecutionStatus::RUNNING;
+      }
+      reply = m_future->GetValue();
     }
-    auto reply = m_future->GetValue();
     auto [success, choice] = ParseUserChoiceReply(reply);
     if (!success)
     {
@@ -109,7 +123,11 @@ void UserChoice::ResetHook(UserInterface& ui)
 
 void UserChoice::HaltImpl()
 {
-  m_future.reset();
+  std::unique_ptr<IUserInputFuture> future{};
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    future = std::move(m_future);
+  }
   HaltChildren();
 }
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.h b/src/lib/sup/oac-tree/instructions/user_choice.h
index c9be1da..608f0c3 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.h
+++ b/src/lib/sup/oac-tree/instructions/user_choice.h
@@ -25,6 +25,7 @@
 
 #include <sup/oac-tree/compound_instruction.h>
 
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -50,6 +51,7 @@ public:
 private:
   sup::dto::int32 m_choice;
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;  // Halt() may be called from other threads
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 05bfd65..5ac9b78 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -37,6 +37,7 @@ const std::string DEFAULT_CANCEL_TEXT = "Cancel";
 UserConfirmation::UserConfirmation()
   : Instruction(UserConfirmation::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth).SetMandatory();
@@ -69,17 +70,22 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kConfirmation});
   std::vector<std::string> options = { ok_text, cancel_text };
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  if (!IsHaltRequested())
+  {
+    m_future = std::move(future);
+  }
   return true;
 }
 
 ExecutionStatus UserConfirmation::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -93,16 +99,28 @@ void UserConfirmation::ResetHook(UserInterface& ui)
 
 void UserConfirmation::HaltImpl()
 {
-  m_future.reset();
+  std::unique_ptr<IUserInputFuture> future{};
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    future = std::move(m_future);
+  }
 }
 
 ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
-  if (!m_future->IsReady())
+  UserInputReply reply;
   {
-    return ExecutionStatus::RUNNING;
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    if (!m_future)
+    {
+      return ExecutionStatus::FAILURE;
+    }
+    if (!m_future->IsReady())
+    {
+      return ExecutionStatus::RUNNING;
+    }
+    reply = m_future->GetValue();
   }
-  auto reply = m_future->GetValue();
   auto [success, choice] = ParseUserChoiceReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.h b/src/lib/sup/oac-tree/instructions/user_confirmation.h
index 086299f..290bcb3 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.h
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.h
@@ -25,6 +25,8 @@
 
 #include <sup/oac-tree/instruction.h>
 
+#include <mutex>
+
 namespace sup
 {
 namespace oac_tree
@@ -44,6 +46,7 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;  // Halt() may be called from other threads
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
-- 
2.43.0


From 87943f96f04a0a1c51c2881173eff89ebf23d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 17/26] fix: refuse recursive inclusion at setup

An Include or IncludeProcedure that directly or indirectly includes itself made
Procedure::Setup recurse until the stack was exhausted. Inclusions under way are
now remembered and a repeated one is reported with an InstructionSetupException.
---
 src/lib/sup/oac-tree/instructions/include.cpp |  1 +
 .../instructions/include_procedure.cpp        |  1 +
 .../instructions/instruction_helper.cpp       | 31 +++++++++++++++++++
 .../instructions/instruction_helper.h         | 20 ++++++++++++
 4 files changed, 53 insertions(+)

diff --git a/src/lib/sup/oac-tree/instructions/include.cpp b/src/lib/sup/oac-tree/instructions/include.cpp
index b488cb2..c62cba4 100644
--- a/src/lib/sup/oac-tree/instructions/include.cpp
+++ b/src/lib/sup/oac-tree/instructions/include.cpp
@@ -56,6 +56,7 @@ void Include::SetupImpl(const Procedure& proc)
   }
   auto proc_context = proc.GetContext();
   auto path = GetAttributeString(Constants::PATH_ATTRIBUTE_NAME);
+  InstructionHelper::InclusionGuard inclusion_guard{*this, proc_filename, path};
   auto clone = proc_context.CloneInstructionPath(proc_filename, path);
   if (!clone)
   {
diff --git a/src/lib/sup/oac-tree/instructions/include_procedure.cpp b/src/lib/sup/oac-tree/instructions/include_procedure.cpp
index 4b50bf4..486790b 100644
--- a/src/lib/sup/oac-tree/instructions/include_procedure.cpp
+++ b/src/lib/sup/oac-tree/instructions/include_procedure.cpp
@@ -53,6 +53,7 @@ void IncludeProcedure::SetupImpl(const Procedure& proc)
   auto proc_filename = ResolveRelativePath(proc, filename);
   auto proc_context = proc.GetContext();
   std::string path = GetAttributeString(Constants::PATH_ATTRIBUTE_NAME);
+  InstructionHelper::InclusionGuard inclusion_guard{*this, proc_filename, path};
   auto instr_clone = proc_context.CloneInstructionPath(proc_filename, path);
   if (!instr_clone)
   {
diff --git a/src/lib/sup/oac-tree/instructions/instruction_helper.cpp b/src/lib/sup/oac-tree/instructions/instruction_helper.cpp
index 2ee8a88..4a18448 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_helper.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_helper.cpp
@@ -26,12 +26,18 @@
 #include <sup/oac-tree/decorator_instruction.h>
 
 #include <sup/oac-tree/constants.h>
+#include <sup/oac-tree/exceptions.h>
 #include <sup/oac-tree/instruction_registry.h>
 
 #include <algorithm>
+#include <string>
+#include <tuple>
+#include <vector>
 
 namespace
 {
+using InclusionInfo = std::tuple<std::string, std::string, sup::oac_tree::StringAttributeList>;
+std::vector<InclusionInfo>& GetActiveInclusions();
 std::pair<std::string, std::string> StripPath(const std::string& path);
 bool CloneChildInstructions(sup::oac_tree::Instruction& clone,
                             const sup::oac_tree::Instruction* source);
@@ -133,6 +139,25 @@ bool AttributeStartsWith(const std::string& attr_str, char c)
   return attr_str[0] == c;
 }
 
+InclusionGuard::InclusionGuard(const Instruction& instruction, const std::string& filename,
+                               const std::string& path)
+{
+  auto& inclusions = GetActiveInclusions();
+  const InclusionInfo info{filename, path, instruction.GetStringAttributes()};
+  if (std::find(inclusions.begin(), inclusions.end(), info) != inclusions.end())
+  {
+    std::string error_message = InstructionSetupExceptionProlog(instruction) +
+      "recursive inclusion of path [" + path + "] in file [" + filename + "]";
+    throw InstructionSetupException(error_message);
+  }
+  inclusions.push_back(info);
+}
+
+InclusionGuard::~InclusionGuard()
+{
+  GetActiveInclusions().pop_back();
+}
+
 }  // namespace InstructionHelper
 
 }  // namespace oac_tree
@@ -143,6 +168,12 @@ using namespace sup::oac_tree;
 
 namespace
 {
+std::vector<InclusionInfo>& GetActiveInclusions()
+{
+  static thread_local std::vector<InclusionInfo> active_inclusions;
+  return active_inclusions;
+}
+
 std::pair<std::string, std::string> StripPath(const std::string &path)
 {
   std::size_t delim_pos = path.find(DefaultSettings::PATH_DELIMITER);
diff --git a/src/lib/sup/oac-tree/instructions/instruction_helper.h b/src/lib/sup/oac-tree/instructions/instruction_helper.h
index b325cd4..8624f8a 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_helper.h
+++ b/src/lib/sup/oac-tree/instructions/instruction_helper.h
@@ -83,6 +83,26 @@ bool InitialisePlaceholderAttributes(AttributeHandler& attribute_handler,
  */
 bool AttributeStartsWith(const std::string& attr_str, char c);
 
+/**
+ * @brief Registers the inclusion of an instruction tree for as long as it is being set up.
+ *
+ * @details Inclusions are set up recursively on the same thread. An inclusion with the same target
+ * and the same attributes as one of those under way will never end: it is refused.
+ */
+class InclusionGuard
+{
+public:
+  /**
+   * @throw InstructionSetupException when the inclusion is recursive.
+   */
+  InclusionGuard(const Instruction& instruction, const std::string& filename,
+                 const std::string& path);
+  ~InclusionGuard();
+
+  InclusionGuard(const InclusionGuard&) = delete;
+  InclusionGuard& operator=(const InclusionGuard&) = delete;
+};
+
 }  // namespace InstructionHelper
 
 }  // namespace oac_tree
-- 
2.43.0


From 62e966856fdc2b7eac97dca48e17c499588b1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 18/26] fix: stop instructions before resetting or removing the
 workspaces they use

Procedure::Reset set up the workspaces of included procedures again, and
~Procedure destroyed them, while instructions that run asynchronously were still
using them: values differed from the initial ones after a reset, and destruction
was a use after free.
---
 src/lib/sup/oac-tree/procedure/procedure.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 71de808..2de07cc 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -218,12 +218,13 @@ void Procedure::Halt()
 
 void Procedure::Reset(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->ResetProcedureWorkspaces(ui);
+  // Instructions that run asynchronously have to be stopped before touching the workspaces they use.
   if (RootInstruction() != nullptr)
   {
     RootInstruction()->Reset(ui);
   }
+  m_workspace->Teardown();
+  m_procedure_store->ResetProcedureWorkspaces(ui);
   m_workspace->Setup();
 }
 
@@ -318,13 +319,13 @@ void Procedure::SetupPreamble()
 
 void Procedure::Teardown(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->TearDownProcedures(ui);
-  if (RootInstruction() == nullptr)
+  // Instructions that run asynchronously have to be stopped before removing the workspaces they use.
+  if (RootInstruction() != nullptr)
   {
-    return;
+    RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
   }
-  RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
+  m_workspace->Teardown();
+  m_procedure_store->TearDownProcedures(ui);
   m_attribute_handler.ClearFailedConstraints();
 }
 
-- 
2.43.0


From 4a740a20c3f9593ee638eac2a8355c3117e36c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 19/26] fix: write the attributes of a procedure

ToTreeData and GetXMLString dropped the attributes of the procedure itself, like
its name, tickTimeout and timingAccuracy.
---
 src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp | 4 ++++
 src/lib/sup/oac-tree/procedure.h                            | 5 +++++
 src/lib/sup/oac-tree/procedure/procedure.cpp                | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
index 72077d4..85a5b05 100644
--- a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
+++ b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
@@ -92,6 +92,10 @@ namespace oac_tree
 std::unique_ptr<sup::xml::TreeData> ToTreeData(const Procedure& procedure)
 {
   auto result = internal::make_unique<sup::xml::TreeData>(Constants::PROCEDURE_ELEMENT_NAME);
+  for (const auto& [attr_name, attr_value] : procedure.GetStringAttributes())
+  {
+    result->AddAttribute(attr_name, attr_value);
+  }
   internal::AddPreamble(*result, procedure.GetPreamble());
   for (auto instruction : procedure.GetTopInstructions())
   {
diff --git a/src/lib/sup/oac-tree/procedure.h b/src/lib/sup/oac-tree/procedure.h
index 5b2b60e..e4995d2 100644
--- a/src/lib/sup/oac-tree/procedure.h
+++ b/src/lib/sup/oac-tree/procedure.h
@@ -235,6 +235,11 @@ public:
    */
   std::string GetAttributeString(const std::string& name) const;
 
+  /**
+   * @brief Get all attributes, in the order in which they were added.
+   */
+  const StringAttributeList& GetStringAttributes() const;
+
   /**
    * @brief Set attribute with given name and value.
    *
diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 2de07cc..562ea58 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -247,6 +247,11 @@ std::string Procedure::GetAttributeString(const std::string &name) const
   return GetStringAttributeValue(m_attribute_handler.GetStringAttributes(), name);
 }
 
+const StringAttributeList& Procedure::GetStringAttributes() const
+{
+  return m_attribute_handler.GetStringAttributes();
+}
+
 bool Procedure::AddAttribute(const std::string &name, const std::string &value)
 {
   return m_attribute_handler.AddStringAttribute(name, value);
-- 
2.43.0


From 8c6eb0fe9a693843546f3947c882358baca9c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 20/26] fix: write variables with the name under which the
 workspace knows them

A variable that was added to a procedure without a name attribute, or with
another one, was written as a document that could not be read, or that had
another variable.
---
 .../parser/procedure_to_treedata_utils.cpp    | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
index 85a5b05..865ac6e 100644
--- a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
+++ b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
@@ -52,6 +52,22 @@ std::unique_ptr<sup::xml::TreeData> CreateTreeData(const Instruction* instructio
   return tree_data;
 }
 
+std::unique_ptr<sup::xml::TreeData> CreateNamedTreeData(const Variable& variable,
+                                                        const std::string& name)
+{
+  auto tree_data = internal::make_unique<sup::xml::TreeData>(variable.GetType());
+  for (const auto& [attr_name, attr_value] : variable.GetStringAttributes())
+  {
+    const bool is_name = attr_name == Constants::NAME_ATTRIBUTE_NAME;
+    tree_data->AddAttribute(attr_name, is_name ? name : attr_value);
+  }
+  if (!tree_data->HasAttribute(Constants::NAME_ATTRIBUTE_NAME))
+  {
+    tree_data->AddAttribute(Constants::NAME_ATTRIBUTE_NAME, name);
+  }
+  return tree_data;
+}
+
 void Iterate(const Instruction* instruction, sup::xml::TreeData* parent)
 {
   for (auto& child : instruction->ChildInstructions())
@@ -118,9 +134,9 @@ std::unique_ptr<sup::xml::TreeData> ToTreeData(const Variable& variable)
 std::unique_ptr<sup::xml::TreeData> ToTreeData(const Workspace& workspace)
 {
   auto result = internal::make_unique<sup::xml::TreeData>(Constants::WORKSPACE_ELEMENT_NAME);
-  for (auto variable : workspace.GetVariables())
+  for (const auto& name : workspace.VariableNames())
   {
-    result->AddChild(*ToTreeData(*variable));
+    result->AddChild(*internal::CreateNamedTreeData(*workspace.GetVariable(name), name));
   }
   return result;
 }
-- 
2.43.0


From bb56250fc73dbf51b00b9318f818bd177a7fd8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 21/26] fix: accept console input for values of type int64

The console interface had no parser for int64, so every request for such a
value was refused, whatever the user entered.
---
 src/app/oac-tree-cli/cl_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 8729d48..adf9f52 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -271,6 +271,7 @@ static std::map<std::string, ParseFunction> CreateParserMap()
   parser_map["uint16"] = ParserFunctionT<sup::dto::uint16>;
   parser_map["int32"] = ParserFunctionT<sup::dto::int32>;
   parser_map["uint32"] = ParserFunctionT<sup::dto::uint32>;
+  parser_map["int64"] = ParserFunctionT<sup::dto::int64>;
   parser_map["uint64"] = ParserFunctionT<sup::dto::uint64>;
   parser_map["float32"] = ParserFunctionT<sup::dto::float32>;
   parser_map["float64"] = ParserFunctionT<sup::dto::float64>;
-- 
2.43.0


From c31a41d4e144f5518f9530ff556c34e30ac3cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 22/26] fix: read 8-bit integers from the console as numbers

Streaming into an 8-bit integer reads one character: entering 12 returned 49,
the code of '1'.
---
 src/app/oac-tree-cli/cl_interface.cpp | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index adf9f52..2a92c71 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -30,6 +30,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <sstream>
 
@@ -253,6 +254,35 @@ bool ParserFunctionT<sup::dto::boolean>(sup::dto::AnyValue &value, const std::st
   return true;
 }
 
+/**
+ * Small integers are entered as numbers, not as the character with that code.
+ */
+template <typename T>
+bool SmallIntegerParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
+{
+  std::istringstream istr(str);
+  sup::dto::int32 val;
+  istr >> val;
+  if (istr.fail() || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+  {
+    return false;
+  }
+  value = static_cast<T>(val);
+  return true;
+}
+
+template <>
+bool ParserFunctionT<sup::dto::int8>(sup::dto::AnyValue &value, const std::string &str)
+{
+  return SmallIntegerParserFunctionT<sup::dto::int8>(value, str);
+}
+
+template <>
+bool ParserFunctionT<sup::dto::uint8>(sup::dto::AnyValue &value, const std::string &str)
+{
+  return SmallIntegerParserFunctionT<sup::dto::uint8>(value, str);
+}
+
 template <>
 bool ParserFunctionT<std::string>(sup::dto::AnyValue &value, const std::string &str)
 {
-- 
2.43.0


From e7fdce281406880f452da6c4f9a3833c373e0f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 23/26] fix: refuse negative console input for unsigned types

Streaming into an unsigned type wraps negative numbers: entering -1 for a uint32
returned 4294967295.
---
 src/app/oac-tree-cli/cl_interface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 2a92c71..95d496a 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -33,6 +33,7 @@
 #include <limits>
 #include <map>
 #include <sstream>
+#include <type_traits>
 
 static bool ParseStringToScalarAnyvalue(sup::dto::AnyValue &value, const std::string &str);
 
@@ -225,6 +226,11 @@ using ParseFunction = bool (*)(sup::dto::AnyValue &, const std::string &);
 template <typename T>
 bool ParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
 {
+  // Streaming into an unsigned type accepts negative numbers and wraps them
+  if (std::is_unsigned<T>::value && str.find('-') != std::string::npos)
+  {
+    return false;
+  }
   std::istringstream istr(str);
   T val;
   istr >> val;
-- 
2.43.0


From 664f1a18b3e1a898e80f3b3205c817d1d4e7ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 24/26] fix: refuse console input of which only the beginning
 can be read

Entering 3.7 for an integer returned 3, and 12abc returned 12; answering a choice
with 2nd or 1,2 selected an option.
---
 src/app/oac-tree-cli/cl_interface.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 95d496a..553cdff 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -37,6 +37,8 @@
 
 static bool ParseStringToScalarAnyvalue(sup::dto::AnyValue &value, const std::string &str);
 
+static bool OnlyWhitespaceLeft(std::istream& istr);
+
 namespace sup
 {
 namespace oac_tree
@@ -195,7 +197,7 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
   std::getline(std::cin, input_str);
   std::istringstream istr(input_str);
   istr >> input;
-  if (istr.fail())
+  if (istr.fail() || !OnlyWhitespaceLeft(istr))
   {
     std::string error_message =
       "CLInterface::GetUserChoice(): user provided value [" + input_str +
@@ -221,6 +223,11 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
 
 }  // namespace sup
 
+static bool OnlyWhitespaceLeft(std::istream& istr)
+{
+  return (istr >> std::ws).eof();
+}
+
 using ParseFunction = bool (*)(sup::dto::AnyValue &, const std::string &);
 
 template <typename T>
@@ -234,7 +241,7 @@ bool ParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
   std::istringstream istr(str);
   T val;
   istr >> val;
-  if (istr.fail())
+  if (istr.fail() || !OnlyWhitespaceLeft(istr))
   {
     return false;
   }
@@ -252,7 +259,7 @@ bool ParserFunctionT<sup::dto::boolean>(sup::dto::AnyValue &value, const std::st
   std::istringstream istr(str);
   sup::dto::boolean val;
   istr >> std::boolalpha >> val;
-  if (istr.fail())
+  if (istr.fail() || !OnlyWhitespaceLeft(istr))
   {
     return false;
   }
@@ -269,7 +276,8 @@ bool SmallIntegerParserFunctionT(sup::dto::AnyValue &value, const std::string &s
   std::istringstream istr(str);
   sup::dto::int32 val;
   istr >> val;
-  if (istr.fail() || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+  if (istr.fail() || !OnlyWhitespaceLeft(istr)
+      || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
   {
     return false;
   }
-- 
2.43.0


From 0c462e60d7fc346f200101a303cc5d87542c13d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 25/26] fix: refuse a value for a string when there is no
 console input left

At the end of the input a request for a string was answered with an empty string
that nobody entered.
---
 src/app/oac-tree-cli/cl_interface.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 553cdff..edb7c66 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -166,8 +166,7 @@ bool CLInterface::GetUserValue(sup::dto::AnyValue &value, const std::string &des
   }
   std::cout << description << " (" << value.GetTypeName() << "): ";
   std::string input;
-  std::getline(std::cin, input);
-  if (!ParseStringToScalarAnyvalue(value, input))
+  if (!std::getline(std::cin, input) || !ParseStringToScalarAnyvalue(value, input))
   {
     auto json_type = sup::dto::AnyTypeToJSONString(value.GetType());
     std::string error_message =
-- 
2.43.0


From 127dcd62b189c8789f72a4f78424f76e9282f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 26/26] fix: check the range of a console choice before
 decrementing it

Entering -2147483648 overflowed.
---
 src/app/oac-tree-cli/cl_interface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index edb7c66..7510fec 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -204,16 +204,16 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
     m_logger.LogMessage(log::SUP_SEQ_LOG_ERR, error_message);
     return -1;
   }
-  // Decrement input as the interface uses 1-based indexing
-  --input;
-  if (input < 0 || input >= options.size())
+  if (input < 1 || input > options.size())
   {
     std::string error_message =
       "CLInterface::GetUserChoice(): user provided value [" +
-      std::to_string(input + 1) + "] must be in the range [1, " + std::to_string(options.size()) + "]";
+      std::to_string(input) + "] must be in the range [1, " + std::to_string(options.size()) + "]";
     m_logger.LogMessage(log::SUP_SEQ_LOG_ERR, error_message);
     return -1;
   }
+  // Decrement input as the interface uses 1-based indexing
+  --input;
   std::cout << options[input] << " selected" << std::endl;
   return input;
 }
-- 
2.43.0

