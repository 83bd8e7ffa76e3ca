package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"go.f110.dev/go-memcached/client"
	merrors "go.f110.dev/go-memcached/errors"
)

// rawMeta reads items with meta commands written by hand: it sees what the
// client of the repository does not tell apart (a lifetime of 0 seconds and
// none at all), and asks for the tokens in any order.
type rawMeta struct {
	client.Server
	network, addr string
	c             net.Conn
	r             *bufio.Reader
	n             int
}

func dialRaw(network, addr string) (*rawMeta, error) {
	m := &rawMeta{network: network, addr: addr}
	return m, m.Reconnect()
}

func (m *rawMeta) Reconnect() error {
	if m.c != nil {
		m.c.Close()
	}
	c, err := net.DialTimeout(m.network, m.addr, 5*time.Second)
	if err != nil {
		return err
	}
	m.c, m.r = c, bufio.NewReader(c)
	return nil
}

func (m *rawMeta) Close() error { return m.c.Close() }

var rawOrders = []string{"k t f c v", "t v f c k", "v s t f k c", "c f k t v", "f v k c t"}

func (m *rawMeta) Get(key string) (*client.Item, error) {
	if strings.ContainsAny(key, " \r\n") || key == "" || len(key) > 250 {
		return nil, errors.New("raw: bad key")
	}
	toks := rawOrders[m.n%len(rawOrders)]
	m.n++
	m.c.SetDeadline(time.Now().Add(10 * time.Second))
	if _, err := fmt.Fprintf(m.c, "mg %s %s\r\n", key, toks); err != nil {
		return nil, err
	}
	line, err := m.r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimSuffix(line, "\r\n")
	if line == "EN" {
		return nil, merrors.ItemNotFound
	}
	f := strings.Split(line, " ")
	if f[0] != "VA" || len(f) < 2 {
		return nil, errors.New("raw: " + line)
	}
	size, err := strconv.Atoi(f[1])
	if err != nil || size < 0 {
		return nil, errors.New("raw: " + line)
	}
	it := &client.Item{Expiration: 1}
	for _, t := range f[2:] {
		if t == "" {
			return nil, errors.New("raw: " + line)
		}
		switch t[0] {
		case 'k':
			it.Key = t[1:]
		case 's':
			if t[1:] != f[1] {
				return nil, errors.New("raw: " + line)
			}
		case 'f':
			n, err := strconv.ParseUint(t[1:], 10, 32)
			if err != nil {
				return nil, err
			}
			it.Flags = []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
		case 'c':
			if it.Cas, err = strconv.ParseUint(t[1:], 10, 64); err != nil {
				return nil, err
			}
		case 't':
			n, err := strconv.ParseInt(t[1:], 10, 64)
			if err != nil {
				return nil, err
			}
			switch {
			case n == -1:
				it.Expiration = 0
			case n == 0: // not the same as no limit
				it.Expiration = 1
			case n > 30*86400:
				it.Expiration = int(time.Now().Unix() + n)
			default:
				it.Expiration = int(n)
			}
		}
	}
	it.Value = make([]byte, size)
	if _, err := io.ReadFull(m.r, it.Value); err != nil {
		return nil, err
	}
	end := make([]byte, 2)
	if _, err := io.ReadFull(m.r, end); err != nil || string(end) != "\r\n" {
		return nil, errors.New("raw: no end of line behind the value")
	}
	return it, nil
}
