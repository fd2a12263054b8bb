exec(open('/verif/tools/seeds/_js.py').read())
ID="x01-late-success"
PROPERTY="X01"
NEEDS="a success report of a task attempt arriving after the attempt was recorded as failed (for example its worker was declared lost)"
BREAKS="a failed attempt turns into a succeeded one, so its outputs on a lost worker are considered available"
EDITS=[("crates/sail-execution/src/driver/job_scheduler/state.rs","""            (TaskState::Succeeded | TaskState::Failed | TaskState::Canceled, _) => *self,
""","""            (TaskState::Failed, TaskState::Succeeded) => next,
            (TaskState::Succeeded | TaskState::Failed | TaskState::Canceled, _) => *self,
""")]
INJECT=inject("vdemo::late_success",'''
    #[tokio::test]
    async fn late_success() {
        let mut job = Job::new(source(1), 3);
        job.refresh();
        let key = TaskKey { job_id: job.id, stage: 0, partition: 0, attempt: 0 };
        for (first, later) in [
            (TaskState::Failed, TaskState::Succeeded),
            (TaskState::Failed, TaskState::Running),
        ] {
            job.set(0, 0, 0, first);
            job.set(0, 0, 0, later);
            assert!(matches!(job.s.get_task_state(&key), Some(TaskState::Failed)));
        }
    }
''')
