CORE="crates/sail-execution/src/driver/job_scheduler/core.rs"
OPT="crates/sail-execution/src/driver/job_scheduler/options.rs"
OUT="crates/sail-execution/src/driver/output.rs"
OUT_SRC='''
#[cfg(test)]
impl JobOutputManager {
    pub fn demo() -> (Self, mpsc::Receiver<JobOutputItem>) {
        let (sender, receiver) = mpsc::channel(64);
        (Self { sender }, receiver)
    }
}
'''
OPT_SRC='''
#[cfg(test)]
impl JobSchedulerOptions {
    pub fn demo(n: usize) -> Self {
        Self {
            session_id: "s".to_string(),
            task_launch_timeout: Duration::from_secs(1),
            task_max_attempts: n,
            shuffle_backend: ShuffleBackendKind::Storage {
                path: None,
                max_file_size: 1,
                compression: crate::shuffle::ShuffleCompression::None,
            },
        }
    }
}
'''
CORE_HEAD='''
#[cfg(test)]
#[allow(clippy::unwrap_used, clippy::expect_used, clippy::panic)]
mod vdemo {
    use std::sync::Arc;

    use datafusion::arrow::datatypes::{DataType, Field, Schema};
    use datafusion::physical_expr::Partitioning;
    use datafusion::physical_plan::ExecutionPlan;
    use datafusion::physical_plan::empty::EmptyExec;
    use datafusion::physical_plan::repartition::RepartitionExec;
    use datafusion::physical_plan::union::UnionExec;

    use super::*;
    use crate::driver::output::{JobOutputItem, JobOutputManager};

    fn source(p: usize) -> Arc<dyn ExecutionPlan> {
        let schema = Arc::new(Schema::new(vec![Field::new("id", DataType::Int32, false)]));
        Arc::new(EmptyExec::new(schema).with_partitions(p))
    }

    fn exchange(plan: Arc<dyn ExecutionPlan>, n: usize) -> Arc<dyn ExecutionPlan> {
        Arc::new(RepartitionExec::try_new(plan, Partitioning::RoundRobinBatch(n)).unwrap())
    }

    fn reporter() -> sail_telemetry::system_event::SystemEventReporter {
        use sail_telemetry::telemetry::{ResourceOptions, global_system_event_reporter, init_telemetry};
        let config = sail_common::config::AppConfig::load().unwrap();
        let _ = init_telemetry(&config.telemetry, ResourceOptions { kind: "demo" });
        global_system_event_reporter().unwrap()
    }

    struct Job {
        s: JobScheduler,
        id: JobId,
        _rx: tokio::sync::mpsc::Receiver<JobOutputItem>,
    }

    impl Job {
        fn new(plan: Arc<dyn ExecutionPlan>, max_attempts: usize) -> Self {
            let options = JobSchedulerOptions::demo(max_attempts);
            let graph = JobGraph::try_new(
                plan,
                crate::job_graph::JobGraphOptions { shuffle_backend: options.shuffle_backend.clone() },
            )
            .unwrap();
            let (output, rx) = JobOutputManager::demo();
            let mut s = JobScheduler::new(options, reporter());
            let id = s.next_job_id().unwrap();
            s.jobs.insert(
                id,
                JobDescriptor::try_new(graph, JobState::Running { output }, Arc::new(TaskContext::default())).unwrap(),
            );
            Self { s, id, _rx: rx }
        }
        fn refresh(&mut self) -> Vec<JobAction> {
            self.s.refresh_job(self.id)
        }
        fn set(&mut self, stage: usize, partition: usize, attempt: usize, state: TaskState) {
            let key = TaskKey { job_id: self.id, stage, partition, attempt };
            self.s.update_task(&key, state, None, None);
        }
        fn attempts(&self, stage: usize, partition: usize) -> usize {
            self.s.jobs[&self.id].stages[stage].tasks[partition].attempts.len()
        }
        fn released(actions: &[JobAction]) -> Vec<Option<usize>> {
            actions
                .iter()
                .filter_map(|a| match a {
                    JobAction::CleanUpJob { stage, .. } => Some(*stage),
                    _ => None,
                })
                .collect()
        }
    }
'''
def inject(flt, body):
    return (flt, [(CORE, CORE_HEAD + body + "}\n"), (OPT, OPT_SRC), (OUT, OUT_SRC)])
