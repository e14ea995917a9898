// Post: one request with the given body, headers and cookie; the response body or an error; the body is closed
def canonical(h) := forall a, b string {h[a], h[b]} :: has(h, a) && has(h, b) && lib("canonheader", a) == lib("canonheader", b) ==> a == b
def sent(bs, url) := nevents("httpdo") == 1 && domethod() == "POST" && dourl() == url && dodata() == old(bytes(bs)) && doclen() == len(bs)
def answered(r, err) := err == nil ==> nevents("httpok") == 1 && nevents("httpreadfail") == 0 && bytes(r) == respdata()
def reported(err) := (nevents("httpok") == 0 || nevents("httpreadfail") > 0) ==> err != nil

func httpclient.Post3(bs, close, url, header, c) (r, err)
  requires canonical(header)
  loop q *net/http.Request :: forall k string {reqhas(q, k)} :: ranged(k) && has(header, k) ==> reqhas(q, k) && reqheader(q, k) == header[k]
  loop :: forall k string :: ranged(k) ==> has(header, k)
  loop :: canonical(header)
  ensures once: err == nil ==> nevents("httpdo") == 1
  ensures sent: nevents("httpdo") == 0 || sent(bs, url)
  ensures headers: nevents("httpdo") == 1 ==> forall k string :: has(header, k) && (c == nil || lib("canonheader", k) != lib("canonheader", "Cookie")) ==> dohas(k) && doheader(k) == header[k]
  ensures cookie: nevents("httpdo") == 1 && c != nil ==> docookie(c)
  ensures answer: answered(r, err)
  ensures reported: reported(err)
  ensures closed: respclosed()

func httpclient.Post2(bs, close, url) (r, err)
  ensures once: err == nil ==> nevents("httpdo") == 1
  ensures sent: nevents("httpdo") == 0 || sent(bs, url)
  ensures answer: answered(r, err)
  ensures reported: reported(err)
  ensures closed: respclosed()

func httpclient.Post(bs, url) (r, err)
  ensures once: err == nil ==> nevents("httpdo") == 1
  ensures sent: nevents("httpdo") == 0 || sent(bs, url)
  ensures answer: answered(r, err)
  ensures reported: reported(err)
  ensures closed: respclosed()
