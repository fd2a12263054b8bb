exec(open('/verif/tools/seeds/_js.py').read())
ID="x03-release-on-terminal"
PROPERTY="X03"
NEEDS="a consumer task whose latest attempt was cancelled or failed below the attempt limit while its siblings succeeded"
BREAKS="the shuffle data of a stage is released although a consumer task failed and will be retried"
EDITS=[(CORE,"""                        .is_some_and(|a| matches!(a.state, TaskState::Succeeded))
                })
            });""","""                        .is_some_and(|a| a.state.is_terminal())
                })
            });""")]
INJECT=inject("vdemo::keep_inputs",'''
    #[tokio::test]
    async fn keep_inputs() {
        let mut job = Job::new(exchange(source(2), 2), 3);
        println!("{}", job.s.jobs[&job.id].graph);
        job.refresh();
        for p in 0..2 {
            job.set(0, p, 0, TaskState::Succeeded);
        }
        job.refresh();
        job.set(1, 0, 0, TaskState::Succeeded);
        job.set(1, 1, 0, TaskState::Failed);
        let actions = job.refresh();
        assert_eq!(job.attempts(1, 1), 2, "the failed task is retried");
        assert!(Job::released(&actions).is_empty(), "the input of a task to be retried was released");
        job.set(1, 1, 1, TaskState::Succeeded);
        let mut actions = job.refresh();
        job.set(1, 0, 1, TaskState::Succeeded);
        actions.extend(job.refresh());
        assert_eq!(Job::released(&actions), vec![Some(0)]);
    }
''')
