// Package ref talks to the node co-process that hosts the reference
// implementations (acorn, @babel/parser, typescript, a JS engine).
package ref

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
)

// ToolError says that the reference could not answer: never a violation.
type ToolError struct{ Err error }

func (e ToolError) Error() string { return "reference tool: " + e.Err.Error() }

type Server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var Script = "/verif/ref/server.js"

func init() {
	if r := os.Getenv("MOLECHECK_ROOT"); r != "" {
		Script = r + "/ref/server.js"
	}
}

func Start() (*Server, error) {
	cmd := exec.Command("node", "--stack-size=4000", "--max-old-space-size=1500", Script)
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Server{cmd, in, bufio.NewReaderSize(out, 1<<20)}, nil
}

func (s *Server) Close() {
	s.in.Close()
	s.cmd.Wait()
}

func (s *Server) Call(req any, rep any) error {
	b, err := json.Marshal(req)
	if err != nil {
		return ToolError{err}
	}
	b = append(b, '\n')
	if _, err := s.in.Write(b); err != nil {
		return ToolError{err}
	}
	line, err := s.out.ReadBytes('\n')
	if err != nil {
		return ToolError{err}
	}
	var f struct {
		Fatal string `json:"fatal"`
	}
	if err := json.Unmarshal(line, &f); err == nil && f.Fatal != "" {
		return ToolError{fmt.Errorf("%s", f.Fatal)}
	}
	if err := json.Unmarshal(line, rep); err != nil {
		return ToolError{err}
	}
	return nil
}

// Pool hands one server to each goroutine that asks.
type Pool struct {
	mu   sync.Mutex
	free []*Server
}

var shared Pool

func Get() (*Server, error) {
	shared.mu.Lock()
	if n := len(shared.free); n > 0 {
		s := shared.free[n-1]
		shared.free = shared.free[:n-1]
		shared.mu.Unlock()
		return s, nil
	}
	shared.mu.Unlock()
	return Start()
}

func Put(s *Server) {
	shared.mu.Lock()
	shared.free = append(shared.free, s)
	shared.mu.Unlock()
}

// Call borrows a server for one request.
func Call(req any, rep any) error {
	s, err := Get()
	if err != nil {
		return ToolError{err}
	}
	if err := s.Call(req, rep); err != nil {
		s.Close()
		return err
	}
	Put(s)
	return nil
}
