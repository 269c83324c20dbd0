module go.opentelemetry.io/otel

go 1.25.0
