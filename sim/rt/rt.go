// Package rt makes one process one exactly repeatable execution: it seeds the Go
// runtime's random state, keeps the runtime's monitor thread from running, and
// replaces the few operating-system entry points (dialling, listening, HTTP
// round trips, host and process identity) by simulated ones.
package rt

import (
	"bytes"
	"context"
	"crypto/rand"
	"encoding/binary"
	"fmt"
	"net"
	"net/http"
	"reflect"
	"runtime"
	"runtime/pprof"
	"syscall"
	"unsafe"

	"golang.org/x/crypto/blowfish"
)

// Hooks the simulator installs.
var (
	Dial      func(ctx context.Context, network, addr string) (net.Conn, error)
	Listen    func(network, addr string) (net.Listener, error)
	RoundTrip func(req *http.Request) (*http.Response, error)
)

func dialHook(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	return Dial(ctx, network, addr)
}
func listenHook(network, addr string) (net.Listener, error) { return Listen(network, addr) }
func tripHook(t *http.Transport, req *http.Request) (*http.Response, error) {
	return RoundTrip(req)
}

// cheapHash drops the repeated rounds of bcrypt, whose only purpose is to take time;
// a hash still depends on the whole key and its salt.
func cheapHash(key []byte, c *blowfish.Cipher) {}

func hostHook() (string, error) { return "sim", nil }

//go:linkname osHostname os.hostname
func osHostname() (name string, err error)

// Patch makes from jump to to; both are functions of the same signature.
func Patch(from, to any) error {
	f := reflect.ValueOf(from).Pointer()
	t := reflect.ValueOf(to).Pointer()
	var code [13]byte
	code[0], code[1] = 0x49, 0xBC // movabs r12, t
	binary.LittleEndian.PutUint64(code[2:], uint64(t))
	code[10], code[11], code[12] = 0x41, 0xFF, 0xE4 // jmp r12
	const page = 4096
	lo := f &^ (page - 1)
	hi := (f + 13 + page - 1) &^ (page - 1)
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, lo, hi-lo, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); e != 0 {
		return fmt.Errorf("rt: mprotect: %v", e)
	}
	copy(unsafe.Slice((*byte)(unsafe.Pointer(f)), 13), code[:])
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, lo, hi-lo, syscall.PROT_READ|syscall.PROT_EXEC); e != 0 {
		return fmt.Errorf("rt: mprotect: %v", e)
	}
	return nil
}

//go:linkname runtimeRand runtime.rand
func runtimeRand() uint64

var (
	randState uint64
	curM      func() uintptr
)

// cheapOff is where the runtime keeps a thread's state of its cheap random numbers,
// which order select cases and timers of one instant.
const cheapOff = 0x668

func exec(code []byte) (uintptr, error) {
	b, err := syscall.Mmap(-1, 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return 0, err
	}
	copy(b, code)
	if err := syscall.Mprotect(b, syscall.PROT_READ|syscall.PROT_EXEC); err != nil {
		return 0, err
	}
	return uintptr(unsafe.Pointer(&b[0])), nil
}

type fn struct{ pc uintptr }

// randoms takes over the runtime's random numbers: which thread runs must not matter.
func randoms() error {
	if v := runtime.Version(); v != "go1.25.14" {
		return fmt.Errorf("rt: made for go1.25.14, not %s", v)
	}
	a, err := exec([]byte{0x49, 0x8b, 0x46, 0x30, 0xc3}) // mov rax, [r14+0x30]; ret
	if err != nil {
		return err
	}
	f := &fn{a}
	*(*unsafe.Pointer)(unsafe.Pointer(&curM)) = unsafe.Pointer(f)
	code := []byte{0x49, 0xbb} // movabs r11, &randState
	code = binary.LittleEndian.AppendUint64(code, uint64(uintptr(unsafe.Pointer(&randState))))
	code = append(code, 0x48, 0xb8) // movabs rax, golden
	code = binary.LittleEndian.AppendUint64(code, 0x9e3779b97f4a7c15)
	code = append(code, 0xf0, 0x49, 0x0f, 0xc1, 0x03) // lock xadd [r11], rax
	mix := func(shift byte, mul uint64) {
		code = append(code, 0x48, 0x89, 0xc1)        // mov rcx, rax
		code = append(code, 0x48, 0xc1, 0xe9, shift) // shr rcx, shift
		code = append(code, 0x48, 0x31, 0xc8)        // xor rax, rcx
		if mul != 0 {
			code = append(code, 0x48, 0xb9) // movabs rcx, mul
			code = binary.LittleEndian.AppendUint64(code, mul)
			code = append(code, 0x48, 0x0f, 0xaf, 0xc1) // imul rax, rcx
		}
	}
	mix(30, 0xbf58476d1ce4e5b9)
	mix(27, 0x94d049bb133111eb)
	mix(31, 0)
	code = append(code, 0xc3)
	b, err := exec(code)
	if err != nil {
		return err
	}
	g := &fn{b}
	var to func() uint64
	*(*unsafe.Pointer)(unsafe.Pointer(&to)) = unsafe.Pointer(g)
	return Patch(runtimeRand, to)
}

//go:linkname text runtime.text
var text byte

//go:linkname etext runtime.etext
var etext byte

// holdCheap makes a thread's cheap random number stay the same until the next Step:
// how often the runtime draws one depends on real time.
func holdCheap() error {
	lo, hi := uintptr(unsafe.Pointer(&text)), uintptr(unsafe.Pointer(&etext))
	code := unsafe.Slice((*byte)(unsafe.Pointer(lo)), hi-lo)
	imm := binary.LittleEndian.AppendUint64(nil, 0xa0761d6478bd642f)
	n := 0
	for at := 0; ; {
		i := bytes.Index(code[at:], imm)
		if i < 0 {
			break
		}
		at += i
		a := lo + uintptr(at)
		p0, p1 := a&^4095, (a+8+4095)&^4095
		if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, p0, p1-p0, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); e != 0 {
			return fmt.Errorf("rt: mprotect: %v", e)
		}
		binary.LittleEndian.PutUint64(code[at:], 0)
		if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, p0, p1-p0, syscall.PROT_READ|syscall.PROT_EXEC); e != 0 {
			return fmt.Errorf("rt: mprotect: %v", e)
		}
		at += 8
		n++
	}
	if n < 5 {
		return fmt.Errorf("rt: the runtime's random numbers were not found")
	}
	return nil
}

// Step gives the runtime the random state of the next simulated step.
func Step(h uint64) {
	*(*uint64)(unsafe.Pointer(curM() + cheapOff)) = h * 0x9e3779b97f4a7c15
	randState = h
}

func init() { runtime.MemProfileRate = 0 }

//go:linkname idleReasons runtime.isIdleInSynctest
var idleReasons [47]bool

// mutexesAreIdle makes a goroutine that waits for a mutex or a wait group count as idle:
// here its holder may itself be waiting for simulated I/O or time.
func mutexesAreIdle() error {
	if !idleReasons[20] || idleReasons[22] || idleReasons[19] || !idleReasons[44] {
		return fmt.Errorf("rt: the runtime's wait reasons were not found")
	}
	for i := 22; i <= 25; i++ {
		idleReasons[i] = true
	}
	return nil
}

// Install puts the hooks in place.
func Install() error {
	if err := mutexesAreIdle(); err != nil {
		return err
	}
	if err := randoms(); err != nil {
		return err
	}
	if err := holdCheap(); err != nil {
		return err
	}
	for _, p := range [][2]any{
		{(*net.Dialer).DialContext, dialHook},
		{net.Listen, listenHook},
		{blowfish.ExpandKey, cheapHash},
		{(*http.Transport).RoundTrip, tripHook},
		{osHostname, hostHook}, // os.Hostname itself is inlined
	} {
		if err := Patch(p[0], p[1]); err != nil {
			return err
		}
	}
	return nil
}

// SeedCrypto replaces crypto/rand's source.
func SeedCrypto(seed uint64) { rand.Reader = &stream{x: seed*0x9e3779b97f4a7c15 + 77} }

type stream struct{ x uint64 }

func (s *stream) Read(p []byte) (int, error) {
	for i := range p {
		if i%8 == 0 {
			s.x += 0x9e3779b97f4a7c15
		}
		z := s.x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		p[i] = byte(z >> (8 * (i % 8)))
	}
	return len(p), nil
}

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

var labels = map[unsafe.Pointer]string{}

// Label tags the calling goroutine, and the ones it will start, as belonging to node.
func Label(node string) {
	pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("node", node)))
	labels[getProfLabel()] = node
}

// Node is the label of the calling goroutine ("" if none).
func Node() string { return labels[getProfLabel()] }
