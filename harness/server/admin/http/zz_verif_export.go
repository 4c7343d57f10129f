package adminserver

import "net/http"

// VerifHandler is what serves requests.
func (s *Server) VerifHandler() http.Handler { return s.server.Handler }
