module go.opentelemetry.io/otel/sdk

go 1.25.0
