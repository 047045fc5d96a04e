from httplint import HttpRequestLinter, HttpResponseLinter


def use(notes):
    for n in notes:
        n.summary
        n.detail
        str(n)
        for s in n.subnotes:
            s.summary
            s.detail


def main():
    q = HttpRequestLinter(start_time=choice(None, any_float()), no_content=any_bool())
    r = HttpResponseLinter(start_time=choice(None, any_float()), no_content=any_bool(), _related=q)
    q.response = r
    q.process_request_topline(any_bytes(), any_bytes(), any_bytes())
    q.process_headers(header_list(@QNAMES@))
    q.feed_content(any_bytes())
    q.finish_content(any_bool(), None)
    r.base_uri = any_str("user")
    r.is_head_response = any_bool()
    r.process_response_topline(any_bytes(), any_bytes(), choice(None, any_bytes()))
    r.process_headers(header_list(@NAMES@))
    r.feed_content(any_bytes())
    r.finish_content(any_bool(), choice(None, header_list(@NAMES@)))
    use(q.notes)
    use(r.notes)
