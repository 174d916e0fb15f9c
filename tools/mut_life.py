M="cmd/ratus/main.go"
A=["C25","C26"]
def bug(n,*e): return (n,"bug",A,[(M,a,b) for a,b in e])
def same(n,*e): return (n,"same",A,[(M,a,b) for a,b in e])
CLOSE='''	defer func(ctx context.Context) {
		if e := g.Close(ctx); err == nil {
			err = e
		}
	}(ctx)
'''
ACT='''	e, ctx := errgroup.WithContext(ctx)
	e.Go(func() error {
		return serve(ctx, r.Handler(), &a.ServerConfig)
	})
	e.Go(func() error {
		return chore(ctx, g, &a.ChoreConfig)
	})

	return e.Wait()
'''
WATCH='''	go func() {
		defer close(done)
		select {
		case <-ch:
			log.Printf("stop listening on %s\\n", a)
			s.Shutdown(context.Background())
		case <-ctx.Done():
			s.Close()
		}
	}()
'''
TICK='''			r.Reset(c.Interval)
			if !n {
				log.Println("start running background jobs")
				n = true
			}
'''
OTICK='''			if !n {
				log.Println("start running background jobs")
				n = true
				r.Reset(c.Interval)
			}
'''
RUN='''			t := time.Now()
			if err := g.Chore(ctx); err != nil {
				log.Println(err)
			}
			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())
'''
D='''	d := time.Duration(c.InitialDelay.Seconds()*m*float64(time.Second) + 1)
'''
TCASE='''		case <-ctx.Done():
			r.Stop()
			return ctx.Err()
'''
SCASE='''		case <-ch:
			log.Println("stop running background jobs")
			r.Stop()
			return nil
'''
SIG='''	ch := make(chan os.Signal, 1)
	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)

'''
MUT=[
# ---- engine
bug("case sensitive engine",("switch strings.ToLower(a.Engine) {","switch strings.TrimSpace(a.Engine) {")),
same("equal fold",("	switch strings.ToLower(a.Engine) {\n	case \"memdb\":","	switch {\n	case strings.EqualFold(a.Engine, \"memdb\"):"),('	case "mongodb":\n','	case strings.EqualFold(a.Engine, "mongodb"):\n')),
bug("unknown engine falls back",('err = fmt.Errorf("unknown storage engine: %s", a.Engine)','g, err = memdb.New(&a.memdbConfig)')),
bug("unknown engine ends cleanly",('err = fmt.Errorf("unknown storage engine: %s", a.Engine)','log.Println("unknown storage engine")\n		return nil')),
bug("engine swapped",('	case "memdb":\n		g, err = memdb.New(&a.memdbConfig)\n	case "mongodb":','	case "mongo":\n		g, err = memdb.New(&a.memdbConfig)\n	case "mongodb":')),
bug("empty config",('memdb.New(&a.memdbConfig)','memdb.New(&memdb.Config{})')),
same("config copy",('		g, err = memdb.New(&a.memdbConfig)','		cfg := a.memdbConfig\n		g, err = memdb.New(&cfg)')),
bug("config changed",('		g, err = memdb.New(&a.memdbConfig)','		cfg := a.memdbConfig\n		cfg.SnapshotPath = ""\n		g, err = memdb.New(&cfg)')),
bug("creation error ignored",('	if err != nil {\n		return err\n	}\n\n	// Initialize','	if g == nil {\n		return err\n	}\n\n	// Initialize')),
bug("open error ignored",('	if err := g.Open(ctx); err != nil {\n		return err\n	}\n','	if err := g.Open(ctx); err != nil {\n		log.Println(err)\n	}\n')),
bug("open error swallowed",('	if err := g.Open(ctx); err != nil {\n		return err\n	}\n','	if err := g.Open(ctx); err != nil {\n		return nil\n	}\n')),
bug("never opened",('	if err := g.Open(ctx); err != nil {\n		return err\n	}\n','')),
bug("opened twice",('	if err := g.Open(ctx); err != nil {\n		return err\n	}\n','	if err := g.Open(ctx); err != nil {\n		if err := g.Open(ctx); err != nil {\n			return err\n		}\n	}\n')),
bug("open with timeout context reused",('	ctx := context.Background()\n','	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)\n	defer cancel()\n')),
same("open with own timeout",('	if err := g.Open(ctx); err != nil {\n','	octx, cancel := context.WithTimeout(ctx, time.Minute)\n	defer cancel()\n	if err := g.Open(octx); err != nil {\n')),
bug("opened late",('	if err := g.Open(ctx); err != nil {\n		return err\n	}\n	'+CLOSE[1:],''),('	return e.Wait()','	if err := g.Open(ctx); err != nil {\n		return err\n	}\n	defer g.Close(context.Background())\n	return e.Wait()')),
bug("never closed",(CLOSE,'')),
bug("close error lost",(CLOSE,'	defer g.Close(ctx)\n')),
bug("close error hides",(CLOSE,CLOSE.replace('; err == nil {','; e != nil {').replace('err = e','err = nil'))),
same("close error wins",(CLOSE,CLOSE.replace('; err == nil {','; e != nil {'))),
same("close after wait",(CLOSE,''),('	return e.Wait()\n','	err = e.Wait()\n	if e := g.Close(context.Background()); err == nil {\n		err = e\n	}\n	return err\n')),
bug("close with group context",(CLOSE,''),('	return e.Wait()\n','	err = e.Wait()\n	if e := g.Close(ctx); err == nil {\n		err = e\n	}\n	return err\n')),
bug("close only on success",(CLOSE,''),('	return e.Wait()\n','	if err := e.Wait(); err != nil {\n		return err\n	}\n	return g.Close(context.Background())\n')),
bug("close before wait",(CLOSE,''),('	return e.Wait()\n','	if err := g.Close(context.Background()); err != nil {\n		return err\n	}\n	return e.Wait()\n')),
bug("closed twice",('	return e.Wait()\n','	err = e.Wait()\n	g.Close(context.Background())\n	return err\n')),
bug("closed by signal too",('	return e.Wait()\n','	go func() {\n		<-ctx.Done()\n		g.Close(context.Background())\n	}()\n	return e.Wait()\n')),
bug("main ignores error",('		log.Fatal(err)\n','		log.Println(err)\n')),
bug("main exits zero",('		log.Fatal(err)\n','		log.Println(err)\n		os.Exit(0)\n')),
same("main exits one",('		log.Fatal(err)\n','		log.Println(err)\n		os.Exit(1)\n')),
bug("fatal skips close",('	return e.Wait()\n','	if err := e.Wait(); err != nil {\n		log.Fatal(err)\n	}\n	return nil\n')),
bug("wait error lost",('	return e.Wait()\n','	e.Wait()\n	return nil\n')),
bug("no wait",('	return e.Wait()\n','	<-ctx.Done()\n	return nil\n')),
same("context cancellation as group",(ACT,ACT.replace('e, ctx := errgroup.WithContext(ctx)','gctx := ctx\n	e, gctx := errgroup.WithContext(gctx)').replace('serve(ctx','serve(gctx').replace('chore(ctx','chore(gctx')) ) if False else same("renamed group",(ACT,ACT.replace('e, ctx :=','grp, gctx :=').replace('e.Go','grp.Go').replace('e.Wait','grp.Wait').replace('serve(ctx','serve(gctx').replace('chore(ctx','chore(gctx'))),
bug("server with parent context",(ACT,ACT.replace('e, ctx :=','grp, gctx :=').replace('e.Go','grp.Go').replace('e.Wait','grp.Wait').replace('chore(ctx','chore(gctx'))),
bug("chores with parent context",(ACT,ACT.replace('e, ctx :=','grp, gctx :=').replace('e.Go','grp.Go').replace('e.Wait','grp.Wait').replace('serve(ctx','serve(gctx'))),
bug("no background jobs",('	e.Go(func() error {\n		return chore(ctx, g, &a.ChoreConfig)\n	})\n','	_ = chore\n')),
bug("no server",('	e.Go(func() error {\n		return serve(ctx, r.Handler(), &a.ServerConfig)\n	})\n','	_ = serve\n	_ = r\n')),
bug("one after the other",(ACT,'''	e, ctx := errgroup.WithContext(ctx)
	e.Go(func() error {
		if err := serve(ctx, r.Handler(), &a.ServerConfig); err != nil {
			return err
		}
		return chore(ctx, g, &a.ChoreConfig)
	})
	return e.Wait()
''')),
bug("chores detached",('	e.Go(func() error {\n		return chore(ctx','	go (func() error {\n		return chore(ctx'),('&a.ChoreConfig)\n	})','&a.ChoreConfig)\n	})()')),
bug("chores twice",('	return e.Wait()','	e.Go(func() error { return chore(ctx, g, &a.ChoreConfig) })\n	return e.Wait()')),
bug("limit one",('	e.Go(func() error {\n		return serve','	e.SetLimit(1)\n	e.Go(func() error {\n		return serve')),
same("limit two",('	e.Go(func() error {\n		return serve','	e.SetLimit(2)\n	e.Go(func() error {\n		return serve')),
bug("server only if chores off",('	e.Go(func() error {\n		return chore(ctx, g, &a.ChoreConfig)\n	})\n','	if a.Port <= 0 {\n		e.Go(func() error {\n			return chore(ctx, g, &a.ChoreConfig)\n		})\n	}\n')),
same("chores spawned when enabled",('	e.Go(func() error {\n		return chore(ctx, g, &a.ChoreConfig)\n	})\n','	if a.Interval > 0 {\n		e.Go(func() error {\n			return chore(ctx, g, &a.ChoreConfig)\n		})\n	}\n')),
# ---- server
same("negative port serves",('	if c.Port <= 0 {','	if c.Port == 0 {')),
bug("port zero serves",('	if c.Port <= 0 {','	if c.Port < 0 {')),
bug("low ports refused",('	if c.Port <= 0 {','	if c.Port < 1024 {')),
bug("port zero is an error",('	if c.Port <= 0 {\n		return nil','	if c.Port <= 0 {\n		return fmt.Errorf("no port")')),
bug("port zero waits",('	if c.Port <= 0 {\n		return nil','	if c.Port <= 0 {\n		<-ctx.Done()\n		return ctx.Err()')),
bug("bind ignored",('fmt.Sprintf("%s:%d", c.Bind, c.Port)','fmt.Sprintf(":%d", c.Port)')),
bug("localhost",('fmt.Sprintf("%s:%d", c.Bind, c.Port)','fmt.Sprintf("127.0.0.1:%d", c.Port)')),
bug("default handler",('		Handler: h,\n','')),
bug("notify sigint only",('	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)\n\n	// Gracefully','	signal.Notify(ch, os.Interrupt)\n\n	// Gracefully')),
bug("notify sigterm only",('	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)\n\n	// Gracefully','	signal.Notify(ch, syscall.SIGTERM)\n\n	// Gracefully')),
bug("notify sigkill",('	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)\n\n	// Gracefully','	signal.Notify(ch, os.Interrupt, syscall.SIGKILL)\n\n	// Gracefully')),
same("notify hup too",('	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)\n\n	// Gracefully','	signal.Notify(ch, os.Interrupt, syscall.SIGTERM, syscall.SIGHUP)\n\n	// Gracefully')),
bug("unbuffered signals",('	ch := make(chan os.Signal, 1)\n	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)\n\n	// Gracefully','	ch := make(chan os.Signal)\n	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)\n\n	// Gracefully')),
bug("notify inside goroutine after listening",(SIG+'	// Gracefully','	// Gracefully'),('	<-done\n','	ch := make(chan os.Signal, 1)\n	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)\n	<-done\n'),('		case <-ch:\n			log.Printf("stop','		case <-make(chan os.Signal):\n			log.Printf("stop')),
bug("close on signal",('s.Shutdown(context.Background())','s.Close()')),
bug("shutdown with ctx",('s.Shutdown(context.Background())','s.Shutdown(ctx)')),
bug("shutdown 1s",('			s.Shutdown(context.Background())','			sctx, cancel := context.WithTimeout(context.Background(), time.Second)\n			defer cancel()\n			s.Shutdown(sctx)')),
same("shutdown todo",('s.Shutdown(context.Background())','s.Shutdown(context.TODO())')),
same("shutdown values",('s.Shutdown(context.Background())','s.Shutdown(context.WithoutCancel(ctx))')),
bug("ctx ignored",('		case <-ctx.Done():\n			s.Close()\n','')),
bug("signal ignored",('		case <-ch:\n			log.Printf("stop listening on %s\\n", a)\n			s.Shutdown(context.Background())\n','')),
same("shutdown on ctx",('		case <-ctx.Done():\n			s.Close()\n','		case <-ctx.Done():\n			s.Shutdown(context.Background())\n')),
bug("ctx noticed but not closed",('		case <-ctx.Done():\n			s.Close()\n','		case <-ctx.Done():\n')),
bug("no wait for done",('	<-done\n\n','')),
bug("done closed first",('		defer close(done)\n','		close(done)\n')),
bug("wait for done even if listening failed",('	if err := s.ListenAndServe(); err != nil && err != http.ErrServerClosed {\n		return err\n	}\n','	err := s.ListenAndServe()\n	<-done\n	if err != nil && err != http.ErrServerClosed {\n		return err\n	}\n	return nil\n'),('	<-done\n\n	return nil\n','')),
bug("server closed is an error",('err != nil && err != http.ErrServerClosed','err != nil')),
bug("listen error lost",('err != nil && err != http.ErrServerClosed {\n		return err','err != nil && err != http.ErrServerClosed {\n		log.Println(err)\n		return nil')),
same("errors is",('err != nil && err != http.ErrServerClosed','err != nil && !(err == http.ErrServerClosed)')),
same("wrapped",('err != nil && err != http.ErrServerClosed {\n		return err','err != nil && err != http.ErrServerClosed {\n		return fmt.Errorf("serve: %w", err)')),
same("watcher helper",(WATCH,'	go watch(ctx, s, ch, done)\n'),('func serve(ctx','func watch(ctx context.Context, s *http.Server, ch <-chan os.Signal, done chan<- struct{}) {\n	defer close(done)\n	select {\n	case <-ch:\n		s.Shutdown(context.Background())\n	case <-ctx.Done():\n		s.Close()\n	}\n}\n\nfunc serve(ctx')),
bug("server read timeout kills", ('		Handler: h,\n','		Handler: http.TimeoutHandler(h, time.Second, ""),\n')),
bug("tls", ('s.ListenAndServe()','s.ListenAndServeTLS("cert.pem", "key.pem")')),
same("notify context",(SIG+'	// Gracefully','	sctx, stop := signal.NotifyContext(context.Background(), os.Interrupt, syscall.SIGTERM)\n	defer stop()\n\n	// Gracefully'),('		case <-ch:\n			log.Printf("stop','		case <-sctx.Done():\n			log.Printf("stop')),
bug("signal reset",(SIG+'	// Gracefully',SIG+'	defer signal.Stop(ch)\n	signal.Reset(os.Interrupt)\n	// Gracefully')),
# ---- background jobs
bug("negative interval runs",('	if c.Interval <= 0 {','	if c.Interval == 0 {')),
bug("small intervals off",('	if c.Interval <= 0 {','	if c.Interval < time.Second {')),
bug("interval zero is error",('	if c.Interval <= 0 {\n		return nil','	if c.Interval <= 0 {\n		return fmt.Errorf("no interval")')),
bug("always random",('	if c.InitialRandom {\n','	{\n')),
bug("random inverted",('	if c.InitialRandom {\n','	if !c.InitialRandom {\n')),
bug("never random",('		m = rand.New(s).Float64()','		_ = rand.New(s).Float64()')),
bug("seconds unit",('c.InitialDelay.Seconds()*m*float64(time.Second)','c.InitialDelay.Seconds()*m*float64(time.Millisecond)')),
bug("interval as delay",('c.InitialDelay.Seconds()*m','c.Interval.Seconds()*m')),
same("no plus one",('*float64(time.Second) + 1)','*float64(time.Second))')),
same("simple form",(D,'	d := time.Duration(float64(c.InitialDelay)*m) + 1\n')),
same("int random",('		m = rand.New(s).Float64()','		m = rand.New(s).Float64()\n		log.Println(m)')),
same("global rand",('		s := rand.NewSource(time.Now().UnixNano())\n		m = rand.New(s).Float64()','		m = rand.Float64()')),
bug("doubled",('		m = rand.New(s).Float64()','		m = 2 * rand.New(s).Float64()')),
bug("gaussian",('		m = rand.New(s).Float64()','		m = rand.New(s).NormFloat64()')),
bug("no signals for chores",(SIG+'	// Start','	ch := make(chan os.Signal, 1)\n\n	// Start')),
bug("chores sigint only",('	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)\n\n	// Start','	signal.Notify(ch, os.Interrupt)\n\n	// Start')),
bug("chores ignore signals",(SCASE,'')),
bug("chores ignore context",(TCASE,'')),
bug("signal continues",(SCASE,SCASE.replace('			return nil\n',''))),
bug("signal is error",(SCASE,SCASE.replace('return nil','return context.Canceled'))),
bug("context continues",(TCASE,TCASE.replace('			return ctx.Err()\n',''))),
same("ctx end nil",(TCASE,TCASE.replace('ctx.Err()','nil'))),
same("defer stop",(TCASE,TCASE.replace('			r.Stop()\n','')),(SCASE,SCASE.replace('			r.Stop()\n','')),('	r := time.NewTimer(d)\n','	r := time.NewTimer(d)\n	defer r.Stop()\n')),
bug("never reset",('			r.Reset(c.Interval)\n','')),
bug("ticker",('NewTimer','NewTicker'),(TICK,OTICK)),
bug("ticker reset always",('NewTimer','NewTicker')),
bug("reset once",(TICK,OTICK)),
bug("reset delay",('r.Reset(c.Interval)','r.Reset(d)')),
bug("reset delay config",('r.Reset(c.Interval)','r.Reset(c.InitialDelay + 1)')),
same("reset every time",(TICK,'			n = true\n			_ = n\n			r.Reset(c.Interval)\n')),
same("reset after",(TICK,TICK.replace('			r.Reset(c.Interval)\n','')),('			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())\n','			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())\n			r.Reset(c.Interval)\n')),
bug("reset inverted",(TICK,OTICK.replace('!n','n'))),
bug("reset before first",(TICK,'			if !n {\n				n = true\n				r.Reset(c.Interval)\n				continue\n			}\n')),
bug("no initial delay",('time.NewTimer(d)','time.NewTimer(c.Interval)'),(D,'	_ = m\n')),
bug("chore errors stop",('				log.Println(err)\n			}\n			metrics','				return err\n			}\n			metrics')),
bug("chore in goroutine",('			if err := g.Chore(ctx); err != nil {\n				log.Println(err)\n			}\n','			go func() {\n				if err := g.Chore(ctx); err != nil {\n					log.Println(err)\n				}\n			}()\n')),
bug("chore background",('g.Chore(ctx)','g.Chore(context.Background())')),
bug("chore short timeout",('			if err := g.Chore(ctx); err','			cctx, cancel := context.WithTimeout(ctx, c.Interval)\n			defer cancel()\n			if err := g.Chore(cctx); err')) if False else bug("chore twice",('			if err := g.Chore(ctx); err','			g.Chore(ctx)\n			if err := g.Chore(ctx); err')),
bug("metric only on success",(RUN,'''			t := time.Now()
			if err := g.Chore(ctx); err != nil {
				log.Println(err)
				continue
			}
			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())
''')),
bug("metric ms",('Observe(time.Since(t).Seconds())','Observe(float64(time.Since(t).Milliseconds()))')),
bug("metric other",('metrics.ChoreHistogram.Observe','metrics.RequestHistogram.WithLabelValues("", "", "", "").Observe')),
bug("metric early",(RUN,'''			t := time.Now()
			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())
			if err := g.Chore(ctx); err != nil {
				log.Println(err)
			}
''')),
bug("skip every other",(RUN,'''			k = !k
			if k {
				continue
			}
'''+RUN),('	var n bool\n','	var n, k bool\n')),
bug("stop after errors",(RUN,'''			t := time.Now()
			if err := g.Chore(ctx); err != nil {
				log.Println(err)
				if fails++; fails > 10 {
					return nil
				}
			}
			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())
'''),('	var n bool\n','	var n bool\n	var fails int\n')),
same("tick helper",(RUN,'			tick(ctx, g)\n'),('func chore(ctx','func tick(ctx context.Context, g engine.Engine) {\n	t := time.Now()\n	if err := g.Chore(ctx); err != nil {\n		log.Println(err)\n	}\n	metrics.ChoreHistogram.Observe(time.Since(t).Seconds())\n}\n\nfunc chore(ctx')),
same("timer instead",(TICK,''),('			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())\n','			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())\n			r.Reset(c.Interval)\n'),('	var n bool\n','')),
bug("timer not rearmed on error",(TICK,''),(RUN,'''			t := time.Now()
			err := g.Chore(ctx)
			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())
			if err != nil {
				log.Println(err)
				continue
			}
			r.Reset(c.Interval)
'''),('	var n bool\n','')),
same("first tick apart",(RUN,'			run()\n'),('''	var n bool
	r := time.NewTimer(d)
	for {
''','''	run := func() {
			t := time.Now()
			if err := g.Chore(ctx); err != nil {
				log.Println(err)
			}
			metrics.ChoreHistogram.Observe(time.Since(t).Seconds())
	}
	f := time.NewTimer(d)
	select {
	case <-ch:
		f.Stop()
		return nil
	case <-ctx.Done():
		f.Stop()
		return ctx.Err()
	case <-f.C:
		run()
	}
	r := time.NewTicker(c.Interval)
	for {
'''),(TICK,'')),
bug("sleep first",('	r := time.NewTimer(d)\n','	time.Sleep(d)\n	r := time.NewTicker(c.Interval)\n')),
same("inverted flag",('	var n bool\n','	first := true\n'),(TICK,TICK.replace('!n','first').replace('n = true','first = false'))),
same("counter",('	var n bool\n','	var n int\n'),(TICK,TICK.replace('!n','n == 0').replace('n = true','n = 1'))),
same("ctx checked first",('	for {\n		select {\n		case <-ch:','	for {\n		if err := ctx.Err(); err != nil {\n			r.Stop()\n			return err\n		}\n		select {\n		case <-ch:')),
bug("fall to serve interval swap",('	return chore(ctx, g, &a.ChoreConfig)','	k := a.ChoreConfig\n		k.Interval = k.InitialDelay\n		return chore(ctx, g, &k)')),
("chore metric unregistered","bug",["C26"],[("internal/metrics/metrics.go","ChoreHistogram = promauto.NewHistogram(","ChoreHistogram = prometheus.NewHistogram(")]),
]
