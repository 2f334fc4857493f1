// Package simaws stands in for the AWS SDK's config package in connectors: clients
// made from its configuration send their requests to the simulation.
package simaws

import (
	"context"
	"errors"
	"net/http"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/credentials"
)

// Do answers requests. It is called on the goroutine of the caller.
var Do func(*http.Request) (*http.Response, error)

type doer struct{}

func (doer) Do(r *http.Request) (*http.Response, error) {
	if Do == nil {
		return nil, errors.New("simaws: no service is simulated")
	}
	return Do(r)
}

// LoadDefaultConfig returns a configuration of the simulated services. Requests
// aren't retried by the SDK: what its retries do is the same as a longer request.
func LoadDefaultConfig(context.Context) (aws.Config, error) {
	return aws.Config{
		Region:      "us-east-2",
		Credentials: credentials.NewStaticCredentialsProvider("id", "secret", ""),
		HTTPClient:  doer{},
		Retryer:     func() aws.Retryer { return aws.NopRetryer{} },
	}, nil
}
