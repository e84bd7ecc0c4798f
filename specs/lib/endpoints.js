// The public REST endpoints of the Langfuse API, one row per client method:
// [client method, HTTP verb, path template, sends a JSON body, query parameters (s text, n number or flag, a list, ! required), takes a request object, answer without data]
export const ENDPOINTS = [
  ["annotationQueues.listQueues", "GET", "/api/public/annotation-queues", 0, "page:n,limit:n", 1],
  ["annotationQueues.createQueue", "POST", "/api/public/annotation-queues", 1, "", 1],
  ["annotationQueues.getQueue", "GET", "/api/public/annotation-queues/{queueId}", 0, "", 0],
  ["annotationQueues.listQueueItems", "GET", "/api/public/annotation-queues/{queueId}/items", 0, "status:s,page:n,limit:n", 1],
  ["annotationQueues.getQueueItem", "GET", "/api/public/annotation-queues/{queueId}/items/{itemId}", 0, "", 0],
  ["annotationQueues.createQueueItem", "POST", "/api/public/annotation-queues/{queueId}/items", 1, "", 1],
  ["annotationQueues.updateQueueItem", "PATCH", "/api/public/annotation-queues/{queueId}/items/{itemId}", 1, "", 1],
  ["annotationQueues.deleteQueueItem", "DELETE", "/api/public/annotation-queues/{queueId}/items/{itemId}", 0, "", 0],
  ["annotationQueues.createQueueAssignment", "POST", "/api/public/annotation-queues/{queueId}/assignments", 1, "", 1],
  ["annotationQueues.deleteQueueAssignment", "DELETE", "/api/public/annotation-queues/{queueId}/assignments", 1, "", 1],
  ["blobStorageIntegrations.getBlobStorageIntegrations", "GET", "/api/public/integrations/blob-storage", 0, "", 0],
  ["blobStorageIntegrations.upsertBlobStorageIntegration", "PUT", "/api/public/integrations/blob-storage", 1, "", 1],
  ["blobStorageIntegrations.getBlobStorageIntegrationStatus", "GET", "/api/public/integrations/blob-storage/{id}", 0, "", 0],
  ["blobStorageIntegrations.deleteBlobStorageIntegration", "DELETE", "/api/public/integrations/blob-storage/{id}", 0, "", 0],
  ["comments.create", "POST", "/api/public/comments", 1, "", 1],
  ["comments.get", "GET", "/api/public/comments", 0, "page:n,limit:n,objectType:s,objectId:s,authorUserId:s", 1],
  ["comments.getById", "GET", "/api/public/comments/{commentId}", 0, "", 0],
  ["datasetItems.create", "POST", "/api/public/dataset-items", 1, "", 1],
  ["datasetItems.get", "GET", "/api/public/dataset-items/{id}", 0, "", 0],
  ["datasetItems.list", "GET", "/api/public/dataset-items", 0, "datasetName:s,sourceTraceId:s,sourceObservationId:s,version:s,page:n,limit:n", 1],
  ["datasetItems.delete", "DELETE", "/api/public/dataset-items/{id}", 0, "", 0],
  ["datasetRunItems.create", "POST", "/api/public/dataset-run-items", 1, "", 1],
  ["datasetRunItems.list", "GET", "/api/public/dataset-run-items", 0, "datasetId:s!,runName:s!,page:n,limit:n", 1],
  ["datasets.list", "GET", "/api/public/v2/datasets", 0, "page:n,limit:n", 1],
  ["datasets.get", "GET", "/api/public/v2/datasets/{datasetName}", 0, "", 0],
  ["datasets.create", "POST", "/api/public/v2/datasets", 1, "", 1],
  ["datasets.getRun", "GET", "/api/public/datasets/{datasetName}/runs/{runName}", 0, "", 0],
  ["datasets.deleteRun", "DELETE", "/api/public/datasets/{datasetName}/runs/{runName}", 0, "", 0],
  ["datasets.getRuns", "GET", "/api/public/datasets/{datasetName}/runs", 0, "page:n,limit:n", 1],
  ["experiments.list", "GET", "/api/public/experiments", 0, "fields:s,limit:n,scoreLimit:n,cursor:s,fromStartTime:s!,toStartTime:s!,id:s,name:s,datasetId:s,filter:s", 1],
  ["experiments.listItems", "GET", "/api/public/experiment-items", 0, "fields:s,limit:n,scoreLimit:n,cursor:s,fromStartTime:s!,toStartTime:s!,experimentId:s,experimentName:s,experimentItemId:s,datasetId:s,filter:s", 1],
  ["feedback.submit", "POST", "/api/public/feedback", 1, "", 1],
  ["health.health", "GET", "/api/public/health", 0, "", 0],
  ["ingestion.batch", "POST", "/api/public/ingestion", 1, "", 1],
  ["legacy.metricsV1.metrics", "GET", "/api/public/metrics", 0, "query:s!", 1],
  ["legacy.observationsV1.get", "GET", "/api/public/observations/{observationId}", 0, "", 0],
  ["legacy.observationsV1.getMany", "GET", "/api/public/observations", 0, "page:n,limit:n,name:s,userId:s,type:s,traceId:s,level:s,parentObservationId:s,environment:a,fromStartTime:s,toStartTime:s,version:s,filter:s", 1],
  ["legacy.scoreV1.delete", "DELETE", "/api/public/scores/{scoreId}", 0, "", 0, 1],
  ["llmConnections.list", "GET", "/api/public/llm-connections", 0, "page:n,limit:n", 1],
  ["llmConnections.upsert", "PUT", "/api/public/llm-connections", 1, "", 1],
  ["llmConnections.delete", "DELETE", "/api/public/llm-connections/{id}", 0, "", 0],
  ["media.get", "GET", "/api/public/media/{mediaId}", 0, "", 0],
  ["media.patch", "PATCH", "/api/public/media/{mediaId}", 1, "", 1, 1],
  ["media.getUploadUrl", "POST", "/api/public/media", 1, "", 1],
  ["metrics.metrics", "GET", "/api/public/v2/metrics", 0, "query:s!", 1],
  ["models.create", "POST", "/api/public/models", 1, "", 1],
  ["models.list", "GET", "/api/public/models", 0, "page:n,limit:n", 1],
  ["models.get", "GET", "/api/public/models/{id}", 0, "", 0],
  ["models.delete", "DELETE", "/api/public/models/{id}", 0, "", 0, 1],
  ["observations.getMany", "GET", "/api/public/v2/observations", 0, "fields:s,expandMetadata:s,limit:n,cursor:s,parseIoAsJson:n,name:s,userId:s,sessionId:s,type:s,traceId:s,level:s,parentObservationId:s,isRootObservation:n,environment:a,fromStartTime:s,toStartTime:s,version:s,filter:s", 1],
  ["opentelemetry.exportTraces", "POST", "/api/public/otel/v1/traces", 1, "", 1],
  ["organizations.getOrganizationMemberships", "GET", "/api/public/organizations/memberships", 0, "", 0],
  ["organizations.updateOrganizationMembership", "PUT", "/api/public/organizations/memberships", 1, "", 1],
  ["organizations.deleteOrganizationMembership", "DELETE", "/api/public/organizations/memberships", 1, "", 1],
  ["organizations.getProjectMemberships", "GET", "/api/public/projects/{projectId}/memberships", 0, "", 0],
  ["organizations.updateProjectMembership", "PUT", "/api/public/projects/{projectId}/memberships", 1, "", 1],
  ["organizations.deleteProjectMembership", "DELETE", "/api/public/projects/{projectId}/memberships", 1, "", 1],
  ["organizations.getOrganizationProjects", "GET", "/api/public/organizations/projects", 0, "", 0],
  ["organizations.getOrganizationApiKeys", "GET", "/api/public/organizations/apiKeys", 0, "", 0],
  ["projects.get", "GET", "/api/public/projects", 0, "", 0],
  ["projects.create", "POST", "/api/public/projects", 1, "", 1],
  ["projects.update", "PUT", "/api/public/projects/{projectId}", 1, "", 1],
  ["projects.delete", "DELETE", "/api/public/projects/{projectId}", 0, "", 0],
  ["projects.getApiKeys", "GET", "/api/public/projects/{projectId}/apiKeys", 0, "", 0],
  ["projects.createApiKey", "POST", "/api/public/projects/{projectId}/apiKeys", 1, "", 1],
  ["projects.deleteApiKey", "DELETE", "/api/public/projects/{projectId}/apiKeys/{apiKeyId}", 0, "", 0],
  ["promptVersion.update", "PATCH", "/api/public/v2/prompts/{name}/versions/{version}", 1, "", 1],
  ["prompts.get", "GET", "/api/public/v2/prompts/{promptName}", 0, "version:n,label:s,resolve:n", 1],
  ["prompts.list", "GET", "/api/public/v2/prompts", 0, "name:s,label:s,tag:s,page:n,limit:n,fromUpdatedAt:s,toUpdatedAt:s", 1],
  ["prompts.create", "POST", "/api/public/v2/prompts", 1, "", 1],
  ["prompts.delete", "DELETE", "/api/public/v2/prompts/{promptName}", 0, "label:s,version:n", 1, 1],
  ["scim.getServiceProviderConfig", "GET", "/api/public/scim/ServiceProviderConfig", 0, "", 0],
  ["scim.getResourceTypes", "GET", "/api/public/scim/ResourceTypes", 0, "", 0],
  ["scim.getSchemas", "GET", "/api/public/scim/Schemas", 0, "", 0],
  ["scim.listUsers", "GET", "/api/public/scim/Users", 0, "filter:s,startIndex:n,count:n", 1],
  ["scim.createUser", "POST", "/api/public/scim/Users", 1, "", 1],
  ["scim.getUser", "GET", "/api/public/scim/Users/{userId}", 0, "", 0],
  ["scim.deleteUser", "DELETE", "/api/public/scim/Users/{userId}", 0, "", 0],
  ["scoreConfigs.create", "POST", "/api/public/score-configs", 1, "", 1],
  ["scoreConfigs.get", "GET", "/api/public/score-configs", 0, "page:n,limit:n", 1],
  ["scoreConfigs.getById", "GET", "/api/public/score-configs/{configId}", 0, "", 0],
  ["scoreConfigs.update", "PATCH", "/api/public/score-configs/{configId}", 1, "", 1],
  ["scores.create", "POST", "/api/public/scores", 1, "", 1],
  ["scores.getMany", "GET", "/api/public/v2/scores", 0, "page:n,limit:n,userId:s,name:s,fromTimestamp:s,toTimestamp:s,environment:a,source:s,operator:s,value:n,scoreIds:s,configId:s,sessionId:s,datasetRunId:s,traceId:s,observationId:s,queueId:s,dataType:s,traceTags:a,fields:s,filter:s", 1],
  ["scores.getById", "GET", "/api/public/v2/scores/{scoreId}", 0, "", 0],
  ["scoresV3.getManyV3", "GET", "/api/public/v3/scores", 0, "limit:n,cursor:s,fields:s,id:s,name:s,source:s,dataType:s,environment:s,configId:s,queueId:s,authorUserId:s,value:s,valueMin:n,valueMax:n,traceId:s,sessionId:s,observationId:s,experimentId:s,fromTimestamp:s,toTimestamp:s", 1],
  ["sessions.list", "GET", "/api/public/sessions", 0, "page:n,limit:n,fromTimestamp:s,toTimestamp:s,environment:a", 1],
  ["sessions.get", "GET", "/api/public/sessions/{sessionId}", 0, "", 0],
  ["trace.get", "GET", "/api/public/traces/{traceId}", 0, "fields:s", 1],
  ["trace.delete", "DELETE", "/api/public/traces/{traceId}", 0, "", 0],
  ["trace.list", "GET", "/api/public/traces", 0, "page:n,limit:n,userId:s,name:s,sessionId:s,fromTimestamp:s,toTimestamp:s,orderBy:s,tags:a,version:s,release:s,environment:a,fields:s,filter:s", 1],
  ["trace.deleteMultiple", "DELETE", "/api/public/traces", 1, "", 1],
  ["unstable.dashboardWidgets.list", "GET", "/api/public/unstable/dashboard-widgets", 0, "page:n,limit:n", 1],
  ["unstable.dashboardWidgets.create", "POST", "/api/public/unstable/dashboard-widgets", 1, "", 1],
  ["unstable.dashboardWidgets.get", "GET", "/api/public/unstable/dashboard-widgets/{widgetId}", 0, "", 0],
  ["unstable.dashboardWidgets.update", "PATCH", "/api/public/unstable/dashboard-widgets/{widgetId}", 1, "", 1],
  ["unstable.dashboardWidgets.delete", "DELETE", "/api/public/unstable/dashboard-widgets/{widgetId}", 0, "", 0],
  ["unstable.dashboards.list", "GET", "/api/public/unstable/dashboards", 0, "page:n,limit:n", 1],
  ["unstable.dashboards.create", "POST", "/api/public/unstable/dashboards", 1, "", 1],
  ["unstable.dashboards.get", "GET", "/api/public/unstable/dashboards/{dashboardId}", 0, "", 0],
  ["unstable.dashboards.update", "PATCH", "/api/public/unstable/dashboards/{dashboardId}", 1, "", 1],
  ["unstable.dashboards.delete", "DELETE", "/api/public/unstable/dashboards/{dashboardId}", 0, "", 0],
  ["unstable.dashboards.addPlacement", "POST", "/api/public/unstable/dashboards/{dashboardId}/placements", 1, "", 1],
  ["unstable.dashboards.updatePlacement", "PATCH", "/api/public/unstable/dashboards/{dashboardId}/placements/{placementId}", 1, "", 1],
  ["unstable.dashboards.deletePlacement", "DELETE", "/api/public/unstable/dashboards/{dashboardId}/placements/{placementId}", 0, "", 0],
  ["unstable.evaluationRules.create", "POST", "/api/public/unstable/evaluation-rules", 1, "", 1],
  ["unstable.evaluationRules.list", "GET", "/api/public/unstable/evaluation-rules", 0, "page:n,limit:n", 1],
  ["unstable.evaluationRules.get", "GET", "/api/public/unstable/evaluation-rules/{evaluationRuleId}", 0, "", 0],
  ["unstable.evaluationRules.update", "PATCH", "/api/public/unstable/evaluation-rules/{evaluationRuleId}", 1, "", 1],
  ["unstable.evaluationRules.delete", "DELETE", "/api/public/unstable/evaluation-rules/{evaluationRuleId}", 0, "", 0],
  ["unstable.evaluators.create", "POST", "/api/public/unstable/evaluators", 1, "", 1],
  ["unstable.evaluators.list", "GET", "/api/public/unstable/evaluators", 0, "page:n,limit:n", 1],
  ["unstable.evaluators.get", "GET", "/api/public/unstable/evaluators/{evaluatorId}", 0, "", 0],
  ["unstable.evaluators.delete", "DELETE", "/api/public/unstable/evaluators/{evaluatorId}", 0, "", 0],
];
