package semconv

import "go.opentelemetry.io/otel/attribute"

const SchemaURL = "https://opentelemetry.io/schemas/1.42.0"
const (
	ServiceNameKey         = attribute.Key("service.name")
	ServiceVersionKey      = attribute.Key("service.version")
	ServiceNamespaceKey    = attribute.Key("service.namespace")
	ServiceInstanceIDKey   = attribute.Key("service.instance.id")
	HostNameKey            = attribute.Key("host.name")
	ExceptionEventName     = "exception"
	ExceptionTypeKey       = attribute.Key("exception.type")
	ExceptionMessageKey    = attribute.Key("exception.message")
	ExceptionStacktraceKey = attribute.Key("exception.stacktrace")
)

func ServiceName(v string) attribute.KeyValue         { return ServiceNameKey.String(v) }
func ServiceVersion(v string) attribute.KeyValue      { return ServiceVersionKey.String(v) }
func ExceptionType(v string) attribute.KeyValue       { return ExceptionTypeKey.String(v) }
func ExceptionMessage(v string) attribute.KeyValue    { return ExceptionMessageKey.String(v) }
func ExceptionStacktrace(v string) attribute.KeyValue { return ExceptionStacktraceKey.String(v) }
func HTTPResponseStatusCode(v int) attribute.KeyValue {
	return attribute.Int("http.response.status_code", v)
}
