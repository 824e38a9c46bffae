"""Concrete search on the compiled crate (HTTP/2); same strategy as search_h1."""
import search_h1
import conc_h2
import spec_h2
import attr_h2

search_h1.H, search_h1.spec, search_h1.attr, search_h1.DIR = conc_h2, spec_h2, attr_h2, 'http2'

if __name__ == '__main__':
    search_h1.main()
