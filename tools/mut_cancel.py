P="internal/engine/mongodb/promise.go"; Q="internal/engine/mongodb/queue.go"; T="internal/engine/mongodb/task.go"; TP="internal/engine/mongodb/topic.go"; MM="internal/engine/mongodb/mongodb.go"
CT="internal/controller/task.go"; CP="internal/controller/promise.go"; C="client.go"
A=["C39"]
def bug(n,f,a,b,ids=A): return (n,"bug",ids,[(f,a,b)])
def same(n,*e): return (n,"same",["C39","C19","C20"],list(e))
MUT=[
 bug("background claim",P,"if err := g.collection.FindOneAndUpdate(ctx, f, u, o).Decode(&v); err != nil {\n\n\t\t// Check","if err := g.collection.FindOneAndUpdate(context.Background(), f, u, o).Decode(&v); err != nil {\n\n\t\t// Check"),
 bug("without cancel list",T,"func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {","func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {\n\tctx = context.WithoutCancel(ctx)"),
 bug("cursor background",T,"All(ctx, &v)","All(context.TODO(), &v)"),
 bug("early cancel",Q,"func (g *Engine) Chore(ctx context.Context) error {","func (g *Engine) Chore(ctx context.Context) error {\n\tctx, cancel := context.WithCancel(ctx)\n\tcancel()"),
 bug("group context after wait",MM,"\te, ctx := errgroup.WithContext(ctx)\n","\tp, ctx := errgroup.WithContext(ctx)\n\tif err := p.Wait(); err != nil {\n\t\treturn err\n\t}\n\te, ctx := errgroup.WithContext(ctx)\n"),
 bug("index creation background",MM,"\te, ctx := errgroup.WithContext(ctx)\n","\te, ctx := errgroup.WithContext(context.Background())\n"),
 bug("ping background",MM,"g.client.Ping(ctx, readpref.Primary())","g.client.Ping(context.Background(), readpref.Primary())"),
 bug("handler without cancel",CT,"g.UpsertTask(c.Request.Context(), t)","g.UpsertTask(context.WithoutCancel(c.Request.Context()), t)") if 0 else bug("client background",C,"http.NewRequestWithContext(ctx, ","http.NewRequestWithContext(context.WithoutCancel(ctx), "),
 same("client value",(C,"http.NewRequestWithContext(ctx, ","http.NewRequestWithContext(context.WithValue(ctx, http.ServerContextKey, nil), ")),
 same("timeout index",(MM,"\te, ctx := errgroup.WithContext(ctx)\n","\tctx, cancel := context.WithCancel(ctx)\n\tdefer cancel()\n\te, ctx := errgroup.WithContext(ctx)\n")),
 same("rename",(Q,"func (g *Engine) Chore(ctx context.Context) error {","func (g *Engine) Chore(c context.Context) error {\n\tctx := c")),
]
RQ="req, err := http.NewRequestWithContext(ctx, method, endpoint, b)"
MUT += [
 bug("request without context",C,RQ,"req, err := http.NewRequest(method, endpoint, b)",["C39","C20"]),
 same("context added later",(C,RQ,"req, err := http.NewRequest(method, endpoint, b)"),(C,"	res, err := c.client.Do(req)","	res, err := c.client.Do(req.WithContext(ctx))")),
]
