package sim

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/s3"
	"github.com/cybozu-go/moco/pkg/bucket"
)

var realCmd bool

// bkObject is one stored object.
type bkObject struct {
	data []byte
	job  *jobRun
	at   time.Duration
}

// memBucket is the object storage: objects appear atomically.
type memBucket struct {
	t    *w3World
	objs map[string]*bkObject
}

type jobBucket struct {
	b *memBucket
	j *jobRun
}

var _ bucket.Bucket = &jobBucket{}

func (t *w3World) newBucket(name string, opts []func(*s3.Options)) (bucket.Bucket, error) {
	j := t.cur
	if j == nil || j.inc.Dead() {
		return nil, ErrDead
	}
	if name != "bkt" {
		return nil, fmt.Errorf("no such bucket: %s", name)
	}
	return t.newBucketFor(j), nil
}

var errBucket = errors.New("sim: object storage: 503 slow down")

// shortReader breaks off with an error.
type shortReader struct {
	r io.Reader
}

func (s *shortReader) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	if err == io.EOF {
		err = errors.New("sim: connection reset by peer")
	}
	return n, err
}

func (b *jobBucket) fate(op string) toolFate {
	f, ok := b.b.t.takeFate(&b.b.t.bf, b.j.kind, op)
	if ok {
		b.j.faulty = true
		k := "bucket_" + op + "_" + f.kind
		b.b.t.w.S.park(nil, "fate/"+k, func(r *request) {
			b.b.t.w.Faults[k]++
			b.b.t.w.S.Reply(r, true)
		})
	}
	return f
}

func (b *jobBucket) call(ctx context.Context, op, key string, f func(fate func(err error), ok func(v any))) (any, error) {
	w := b.b.t.w
	return w.S.Call(ctx, b.j.inc, fmt.Sprintf("bucket/%d/%s/%s", b.j.id, op, key), func(r *request) {
		lat := w.S.logDur("bucketlat", 5*time.Millisecond, 4*time.Second)
		w.S.After(lat, func() {
			if r.Abandoned() && w.S.Chance("bucketlost", 0.5) {
				return
			}
			w.S.Logf("bucket %s %s", op, key)
			f(func(err error) { w.S.Reply(r, err) }, func(v any) { w.S.Reply(r, v) })
			w.S.After(0, func() { w.step("job_bucket_" + op) })
		})
	})
}

func (b *jobBucket) Put(ctx context.Context, key string, data io.Reader, size int64) error {
	if b.j.inc.Dead() {
		return ErrDead
	}
	fate := b.fate("put")
	if fate.kind == "early" {
		return errBucket
	}
	buf, err := io.ReadAll(data)
	if err != nil {
		return err
	}
	_, err = b.call(ctx, "put", key, func(fail func(error), ok func(any)) {
		if fate.kind == "before" || fate.kind == "short" {
			fail(errBucket)
			return
		}
		b.b.t.onPut(b.j, key, buf)
		b.b.objs[key] = &bkObject{data: buf, job: b.j, at: b.b.t.w.S.Now()}
		if fate.kind == "after" {
			fail(errBucket)
			return
		}
		ok(true)
	})
	return err
}

func (b *jobBucket) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	if b.j.inc.Dead() {
		return nil, ErrDead
	}
	fate := b.fate("get")
	v, err := b.call(ctx, "get", key, func(fail func(error), ok func(any)) {
		o := b.b.objs[key]
		if fate.kind == "early" || fate.kind == "before" || fate.kind == "after" {
			fail(errBucket)
			return
		}
		if o == nil {
			fail(errors.New("NoSuchKey: " + key))
			return
		}
		b.b.t.onGet(b.j, key)
		ok(o.data)
	})
	if err != nil {
		return nil, err
	}
	data := v.([]byte)
	if fate.kind == "short" {
		return io.NopCloser(&shortReader{bytes.NewReader(data[:len(data)*(fate.cut%10)/10])}), nil
	}
	return io.NopCloser(bytes.NewReader(data)), nil
}

func (b *jobBucket) List(ctx context.Context, prefix string) ([]string, error) {
	if b.j.inc.Dead() {
		return nil, ErrDead
	}
	fate := b.fate("list")
	v, err := b.call(ctx, "list", prefix, func(fail func(error), ok func(any)) {
		if fate.kind != "" {
			fail(errBucket)
			return
		}
		var ks []string
		for _, k := range sortedObjs(b.b.objs) {
			if strings.HasPrefix(k, prefix) {
				ks = append(ks, k)
			}
		}
		ok(ks)
	})
	if err != nil {
		return nil, err
	}
	ks, _ := v.([]string)
	return append([]string(nil), ks...), nil
}
