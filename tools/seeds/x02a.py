exec(open('/verif/tools/seeds/_js.py').read())
ID="x02-any-dependency"
PROPERTY="X02"
NEEDS="a query whose last stage reads two shuffled inputs, one of which finishes before the other"
BREAKS="a group of tasks is handed out as soon as one of the groups it depends on has succeeded"
EDITS=[(CORE,"""            if !region
                .dependencies
                .iter()
                .all(|d| matches!(job.regions[*d].state, TaskRegionState::Succeeded))
            {
""","""            if !region.dependencies.is_empty()
                && !region
                    .dependencies
                    .iter()
                    .any(|d| matches!(job.regions[*d].state, TaskRegionState::Succeeded))
            {
""")]
INJECT=inject("vdemo::two_inputs",'''
    #[tokio::test]
    async fn two_inputs() {
        let plan = UnionExec::try_new(vec![exchange(source(2), 2), exchange(source(2), 2)]).unwrap();
        let mut job = Job::new(plan, 2);
        println!("{}", job.s.jobs[&job.id].graph);
        let n = job.s.jobs[&job.id].stages.len();
        assert!(n >= 3);
        job.refresh();
        // exactly one of the two producers finishes
        for p in 0..job.s.jobs[&job.id].stages[0].tasks.len() {
            job.set(0, p, 0, TaskState::Succeeded);
        }
        job.refresh();
        for p in 0..job.s.jobs[&job.id].stages[1].tasks.len() {
            if job.attempts(1, p) > 0 {
                job.set(1, p, 0, TaskState::Succeeded);
            }
        }
        job.refresh();
        for p in 0..job.s.jobs[&job.id].stages[n - 1].tasks.len() {
            assert_eq!(job.attempts(n - 1, p), 0, "the reader was scheduled before all of its inputs were complete");
        }
    }
''')
