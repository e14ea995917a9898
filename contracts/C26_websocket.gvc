// websocket.Handler: one message per send, under the handler's own mutex; an error once it failed or was closed
guardtype websocket.Handler lock=emux immutable=Cfg,conn,mux
def wf(h) := h != nil && h.mux != nil && own(h.mux) != own(h) && h.conn != nil && h.Cfg != nil

func websocket.NewHandler(cfg) (h, err)
  requires cfg != nil
  ensures ready: err == nil ==> h != nil && fresh(h) && h.mux != nil && fresh(h.mux) && h.conn != nil && fresh(h.conn) && h.Cfg == cfg
  ensures failed: err != nil ==> h == nil

func (*websocket.Handler).Send(h, bs) (err)
  requires wf(h)
  ensures sent: err == nil ==> wsends(h.conn) == 1 && wsdata(h.conn, 0) == old(bytes(bs))
  ensures once: nevents("wssend") == 0 || nevents("wssend") == 1 && wsends(h.conn) == 1 && wsdata(h.conn, 0) == old(bytes(bs))
  ensures reported: nevents("wssend") == 1 && wserr(h.conn, 0) != nil ==> err != nil
  ensures serial: nevents("wssend") == 1 ==> atop("wssend", 0, held(h.mux)) == 1
  ensures same: h.conn == old(h.conn) && h.mux == old(h.mux) && h.Cfg == old(h.Cfg)

func (*websocket.Handler).Close(h) (err)
  requires h != nil
  ensures closes: h.conn != nil ==> wscloses(h.conn) == 1
  ensures quiet: nevents("wssend") == 0
  ensures same: h.conn == old(h.conn) && h.mux == old(h.mux) && h.Cfg == old(h.Cfg)

func (*websocket.Handler).Error(h) (err)
  requires h != nil
  ensures quiet: nevents("wssend") == 0
  ensures same: h.conn == old(h.conn) && h.mux == old(h.mux) && h.Cfg == old(h.Cfg)

proc sends_after_close(h *websocket.Handler, a []byte, b []byte)
  requires wf(h)
  e := call h.Close()
  x := call h.Send(a)
  assert refused: x != nil
  y := call h.Send(b)
  assert still-refused: y != nil
  f := call h.Close()
  z := call h.Send(b)
  assert refused-again: z != nil && nevents("wssend") == 0
  w := call h.Error()
  assert reported: w != nil

proc sends_after_reader_stopped(h *websocket.Handler, a []byte)
  requires wf(h)
  call h.read()
  x := call h.Send(a)
  assert refused: x != nil && nevents("wssend") == 0
