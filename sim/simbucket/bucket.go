// Package simbucket stands in for moco's pkg/bucket in cmd/moco-backup: it offers
// the same constructors, which give the simulated bucket.
package simbucket

import (
	"context"
	"errors"

	"github.com/Azure/azure-sdk-for-go/sdk/azcore"
	"github.com/aws/aws-sdk-go-v2/service/s3"
	"github.com/cybozu-go/moco/pkg/bucket"
)

type Bucket = bucket.Bucket

// New is set by the simulator.
var New func(name string, opts []func(*s3.Options)) (bucket.Bucket, error)

var (
	WithCredentials = bucket.WithCredentials
	WithRegion      = bucket.WithRegion
	WithEndpointURL = bucket.WithEndpointURL
	WithPathStyle   = bucket.WithPathStyle
	WithHTTPClient  = bucket.WithHTTPClient
)

func NewS3Bucket(name string, optFns ...func(*s3.Options)) (Bucket, error) { return New(name, optFns) }

func NewGCSBucket(ctx context.Context, name string) (Bucket, error) {
	return nil, errors.New("sim: GCS is not simulated")
}

func NewAzureBucket(ctx context.Context, url, name string, cred azcore.TokenCredential) (Bucket, error) {
	return nil, errors.New("sim: Azure is not simulated")
}

func NewAzureBucketFromConnectionString(ctx context.Context, conn, name string) (Bucket, error) {
	return nil, errors.New("sim: Azure is not simulated")
}
